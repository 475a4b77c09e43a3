# coding=utf-8
"""C10: CSV import builds the process the spreadsheet describes"""
from symex.api import H, write_csv
from . import csvgen as C
from . import docgen as D

KIND = {"start": "startEvent", "task": "task", "subProcess": "subProcess", "end": "endEvent"}


def load(ctx, rows):
    dg = D.new_diagram(ctx)
    dg.load_diagram_from_csv_file(write_csv(ctx, "in.csv", rows))
    return dg


def cond_of(f):
    c = f.get("conditionExpression")
    return "" if c is None else c["conditionExpression"]


def check(ctx, dg, sheet, conds):
    nodes = dict(dg.get_nodes())
    flows = [f[2] for f in dg.get_flows()]
    ids = {}
    for r in sheet.rows:
        if r.kind == "goto":
            continue
        ctx.ok(r.order in nodes, "no node for row %s" % r.order)
        a = nodes[r.order]
        ctx.eq(a["type"], KIND[r.kind], "type of row " + r.order)
        ctx.eq(a["node_name"], r.name, "name of row " + r.order)
        ids[r.key] = r.order
    out, inc = {}, {}
    for f in flows:
        out.setdefault(f["sourceRef"], []).append(f)
        inc.setdefault(f["targetRef"], []).append(f)
    rows = set(ids.values())
    for key, (pred, cs) in sheet.splits.items():
        fs = out.get(ids[pred], [])
        ctx.eq(len(fs), 1, "flows leaving row %s, which is followed by branches" % ids[pred])
        g = fs[0]["targetRef"]
        ctx.ok(g not in rows, "row %s is not followed by a gateway" % ids[pred])
        ctx.eq(nodes[g]["type"], C.gateway_kind([conds[c] for c in cs]), "kind of the split after row %s" % ids[pred])
        ids["split:" + key] = g
    for key, split_key in sheet.joins.items():
        want = [s for (s, t) in sheet.flows if t == "join:" + key]
        js = set(f["targetRef"] for s in want for f in out.get(ids.get(s), ()))
        ctx.eq(len(js), 1, "number of joins before row %s" % ids[key])
        j = js.pop()
        ctx.ok(j not in rows, "the branches before row %s are not joined by a gateway" % ids[key])
        ctx.eq(nodes[j]["type"], nodes[ids["split:" + split_key]]["type"], "kind of the join before row %s" % ids[key])
        ids["join:" + key] = j
    ctx.eq(len(set(ids.values())), len(ids), "gateways of different splits and joins are different")
    ctx.eq(len(nodes), len(ids), "number of nodes")
    ctx.eq(len(flows), len(sheet.flows), "number of flows")
    for (s, t), c in sheet.flows.items():
        fs = [f for f in flows if f["sourceRef"] == ids[s] and f["targetRef"] == ids[t]]
        ctx.eq(len(fs), 1, "flows from %s to %s" % (ids[s], ids[t]))
        ctx.eq(cond_of(fs[0]), "" if c is None else conds[c], "condition of the flow from %s to %s" % (ids[s], ids[t]))
    for i, a in nodes.items():
        ctx.eq(sorted(a["outgoing"]), sorted(f["id"] for f in out.get(i, ())), "outgoing flows of " + i)
        ctx.eq(sorted(a["incoming"]), sorted(f["id"] for f in inc.get(i, ())), "incoming flows of " + i)


def texts(ctx):
    """a line of rows with any texts in the cells"""
    k = 1 + ctx.pick("rows", ctx.p("rows", 3))
    kinds = ["subProcess" if ctx.flag("sub%d" % i) else "task" for i in range(k - 1)] + ["end"]
    s = C.Sheet([C.n("r%d" % i, x) for i, x in enumerate(kinds)])
    rows = [list(C.HEADER)]
    for r in s.rows:
        r.name = ctx.text("name." + r.key)
        C.no_goto(ctx, r.name)
        rows.append([r.order, r.name, "", ctx.text("who." + r.key), "yes" if r.kind == "subProcess" else "",
                     "yes" if r.kind == "end" else ""])
    check(ctx, load(ctx, rows), s, {})
    ctx.reach("done")


def shapes(ctx):
    table = getattr(C, ctx.p("table"))
    steps = C.pick_shape(ctx, table)
    s = C.Sheet(steps, ctx.flag("short"))
    conds = C.conditions(ctx, s, ctx.p("free", 1))
    rows = C.cells(ctx, s, conds, ctx.p("names", None))
    check(ctx, load(ctx, rows), s, conds)
    ctx.reach("done")


def generated(ctx):
    """every combination of branches"""
    s = C.Sheet(C.generated(ctx, ctx.p("count"), ctx.p("inner"), True, ctx.p("kinds"), True), ctx.p("short", True))
    conds = C.conditions(ctx, s, -2)
    check(ctx, load(ctx, C.cells(ctx, s, conds, None)), s, conds)
    ctx.reach("done")


def branch_texts(ctx):
    """any texts as names and conditions of branches"""
    s = C.Sheet(C.pick_shape(ctx, C.SHAPES, ("two", "skip", "ends")), True)
    conds = {c: ctx.text("cond." + c) for _, cs in s.splits.values() for c in cs}
    rows = C.cells(ctx, s, conds, "text")
    check(ctx, load(ctx, rows), s, conds)
    ctx.reach("done")


def kinds(ctx):
    """any text in the Subprocess and Terminated cells: yes means a sub-process, an end event"""
    end3 = ctx.flag("third")
    s = C.Sheet([C.n("a"), C.split("x", [C.n("b")], [C.n("c")], [C.end("e1")] if end3 else C.GOTO), C.n("d"), C.end()],
                ctx.flag("short"))
    conds = dict(zip(s.splits["x"][1], ["x", "y", "z"]))
    rows = C.cells(ctx, s, conds, None)
    for r, cs in zip(s.rows, rows[1:]):
        if r.kind in ("task", "goto"):
            sub = cs[4] = ctx.text("sub." + r.key)
            if r.kind == "task":
                if sub == "yes":
                    r.kind = "subProcess"
                cs[5] = ctx.text("term." + r.key)
                if cs[5] == "yes":
                    ctx.skip()
    check(ctx, load(ctx, rows), s, conds)
    ctx.reach("done")


GOTOS = ["goto %s", "Goto %s", "GOTO %s", "gOtO %s", "goto  %s", "goto\t%s", " goto %s", "\tGoto  %s ", "goto %s "]


def gotos(ctx):
    """goto rows in every spelling"""
    names = [k for k in C.SHAPES if any(r.kind == "goto" for r in C.Sheet(C.SHAPES[k]).rows)]
    s = C.Sheet(C.SHAPES[names[ctx.pick("shape", len(names))]], ctx.flag("short"))
    conds = C.conditions(ctx, s, 0)
    rows = C.cells(ctx, s, conds, None)
    how = GOTOS[ctx.pick("spelling", len(GOTOS))]
    for r, cs in zip(s.rows, rows[1:]):
        if r.kind == "goto":
            cs[1] = how % cs[1].split()[1]
            if r.cond is not None:
                cs[2] = conds[r.cond] = ctx.text("cond." + r.cond)
    check(ctx, load(ctx, rows), s, conds)
    ctx.reach("done")


def blanks(ctx):
    """blanks around the order numbers"""
    s = C.Sheet(C.JOINED["skip_three"], ctx.flag("short"))
    conds = dict(zip(s.splits["x"][1], ["", "x", "else"]))
    rows = C.cells(ctx, s, conds, None)
    at = 1 + ctx.pick("row", len(rows) - 1)
    rows[at][0] = [" %s", "%s ", " %s "][ctx.pick("where", 3)] % rows[at][0]
    check(ctx, load(ctx, rows), s, conds)
    ctx.reach("done")


HARNESSES = [
    H("blocks", generated, "every process of a split with 2 branches, each one of: a task, two tasks, an end event "
      "(after a task), empty, a split with two such branches", {"count": 2, "inner": (1, 1), "kinds": ["n", "nn", "e"]},
      {"kinds": None}, reach=["done"], quick_s=150),
    H("texts", texts, "start event and up to 3 (5) rows in a line, every name and Who cell any text", {"rows": 3},
      {"rows": 5}, reach=["done"]),
    H("three_blocks", generated, "the same with 3 branches, a split (in the second of them)", {"count": 3, "inner": None},
      {"inner": (0, 1, 0)}, reach=["done"], quick_s=100),
    H("branch_texts", branch_texts, "3 shapes with a split, all names and conditions any text", reach=["done"]),
    H("joined", shapes, "%d block-structured shapes (up to 3 nested splits, 3 branches, gotos, ends); the conditions "
      "of the first (every) split any text" % len(C.JOINED), {"table": "JOINED"}, {"names": "text", "free": 9}, reach=["done"],
      quick_s=100),
    H("other", shapes, "%d shapes with inner splits merged by outer joins and jumps forward and back" % len(C.OTHER),
      {"table": "OTHER"}, {"names": "text"}, reach=["done"], quick_s=100),
    H("long", shapes, "%d shapes with more than 9 rows or 3 branches" % len(C.LONG), {"table": "LONG"},
      {"names": "text"}, reach=["done"], quick_s=100),
    H("big", shapes, "%d large sheets: 104 rows, 26 branches, 6 nested splits, 12 splits one after the other; any conditions"
      % len(C.BIG), {"table": "BIG", "free": -1}, reach=["done"], quick_s=100),
    H("kinds", kinds, "three branches, the Subprocess and Terminated cells of all rows before, in and after them any text",
      reach=["done"]),
    H("gotos", gotos, "%d spellings (case, blanks) of the goto rows of every shape that has some, any conditions" % len(GOTOS),
      reach=["done"]),
    H("blanks", blanks, "one order number with blanks before, after or on both sides", reach=["done"]),
]
