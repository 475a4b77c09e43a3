# coding=utf-8
"""C11: CSV export followed by import preserves the process"""
from symex.api import H, matches, write_csv
from . import c10
from . import csvgen as C
from . import docgen as D
from .c09 import export

EXTRA = {
    "two_splits_t": [C.n("a"), C.split("x", [C.n("b")], [C.n("c")]), C.n("d"), C.split("y", [C.n("f")], C.GOTO), C.n("g"),
                     C.end()],
    "skip_deep": [C.n("a"), C.split("x", [C.n("b"), C.split("y", C.GOTO, [C.n("c"), C.n("d")]), C.n("f")], C.GOTO),
                  C.n("g"), C.end()],
}
SHAPES = {k: v for k, v in list(C.JOINED.items()) + list(EXTRA.items()) if k != "two_splits"}


def reload(ctx, dg, name):
    path = export(ctx, dg, name)
    back = D.new_diagram(ctx)
    back.load_diagram_from_csv_file(path)
    return back


def trip(ctx, s, rows, conds, steps):
    dg = D.new_diagram(ctx)
    dg.load_diagram_from_csv_file(write_csv(ctx, "in.csv", rows))
    for i in range(ctx.p("trips", 1)):
        dg = reload(ctx, dg, "out%d.csv" % i)
    # the export numbers the first row of every branch; branches consisting of a jump may come after the others
    nodes = dict(dg.get_nodes())
    for last in (False, True):
        full = C.Sheet(steps, False, last)
        if all(r.order in nodes for r in full.rows if r.kind != "goto"):
            break
    for r in s.rows:
        if r.kind != "goto":
            full.by[r.key].name = r.name
            full.by[r.key].kind = r.kind
    c10.check(ctx, dg, full, conds)
    ctx.reach("done")


def texts(ctx):
    k = 1 + ctx.pick("rows", ctx.p("rows", 3))
    kinds = ["subProcess" if ctx.flag("sub%d" % i) else "task" for i in range(k - 1)] + ["end"]
    steps = [C.n("r%d" % i, x) for i, x in enumerate(kinds)]
    s = C.Sheet(steps)
    trip(ctx, s, C.cells(ctx, s, {}, "text"), {}, steps)


def shapes(ctx):
    table = getattr(C, ctx.p("table")) if ctx.p("table") else SHAPES
    steps = C.pick_shape(ctx, table)
    s = C.Sheet(steps, ctx.flag("short"))
    conds = C.conditions(ctx, s, ctx.p("free", 1))
    for c in conds.values():
        if matches(c, r"\s+\Z"):
            ctx.skip()
    trip(ctx, s, C.cells(ctx, s, conds, ctx.p("names")), conds, steps)


def generated(ctx):
    """every combination of branches"""
    steps = C.generated(ctx, ctx.p("count"), ctx.p("inner"), False, ctx.p("kinds"))
    s = C.Sheet(steps, True)
    conds = C.conditions(ctx, s, -2)
    trip(ctx, s, C.cells(ctx, s, conds, None), conds, steps)


def kinds(ctx):
    end3 = ctx.flag("third")
    steps = [C.n("a"), C.split("x", [C.n("b")], [C.n("c")], [C.end("e1")] if end3 else C.GOTO), C.n("d"), C.end()]
    s = C.Sheet(steps, False)
    for k in "abcd":
        if ctx.flag("sub." + k):
            s.by[k].kind = "subProcess"
    conds = dict(zip(s.splits["x"][1], ["x", "y", "z"]))
    trip(ctx, s, C.cells(ctx, s, conds, None), conds, steps)


HARNESSES = [
    H("blocks", generated, "every process of a split with 2 branches, each one of: a task, two tasks, an end event (after a "
      "task), empty, a split with two such branches", {"count": 2, "inner": (1, 1), "kinds": ["n", "nn", "e", "ne"]},
      {"kinds": None, "trips": 2}, reach=["done"], quick_s=150),
    H("three_blocks", generated, "the same with 3 branches, a split (in the second of them)", {"count": 3, "inner": None},
      {"inner": (0, 1, 0)}, reach=["done"], quick_s=100),
    H("texts", texts, "start event and up to 3 (5) rows in a line, any names", {"rows": 3}, {"rows": 5}, reach=["done"]),
    H("joined", shapes, "%d block-structured shapes, the conditions of the first (every) split any text" % len(SHAPES), {},
      {"free": 9, "names": "text"}, reach=["done"], quick_s=100),
    H("twice", shapes, "the same through two round trips", {"trips": 2}, {"names": "text"}, reach=["done"], quick_s=240),
    H("long", shapes, "%d shapes with more than 9 rows or 3 branches" % len(C.LONG), {"table": "LONG"}, {"names": "text"},
      reach=["done"], quick_s=100),
    H("big", shapes, "%d large sheets: 104 rows, 26 branches, 6 nested splits, 12 splits one after the other; any conditions"
      % len(C.BIG), {"table": "BIG", "free": -1}, reach=["done"], quick_s=100),
    H("kinds", kinds, "three branches, tasks and sub-processes everywhere", reach=["done"]),
]


def outer_join(ctx):
    """an inner split whose branches merge only where those of the outer one do (known finding)"""
    steps = C.SHAPES["outer_join"]
    s = C.Sheet(steps, False)
    conds = C.conditions(ctx, s, 0)
    trip(ctx, s, C.cells(ctx, s, conds, None), conds, steps)


FINDING_HARNESSES = [H("outer_join", outer_join, "an inner split merged by the join of the outer one")]
