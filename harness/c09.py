# coding=utf-8
"""C09: CSV export lists every activity and event in order"""
from symex.api import H, X, file_exists, read_csv, write_xml
from . import csvgen as C
from . import docgen as D

GW = ["exclusiveGateway", "inclusiveGateway", "parallelGateway"]
ACT = D.TASKS + ["subProcess"]


def build(ctx, sheet, kind=None, join_by_activity=False, backwards=False, free=1, names="text", full=False, types=True,
          at=0, turn=0):
    """a BPMN document of the process. Flows leave every split in the order of its branches. at: the split with the given
    kind, default flow and conditions"""
    doc = D.Doc(ctx)
    p = doc.process("p")
    nodes = {}
    gws = {}
    keys = [r.key for r in sheet.rows if r.kind != "goto"]
    keys += ["split:" + k for k in sheet.splits]
    joins = {}                                  # key of the row after the join -> direct (no gateway)
    merged = sheet.merges
    for key, sk in merged.items():
        if join_by_activity and sheet.by[key].kind != "end":
            joins[key] = key
        else:
            joins[key] = "join:" + key
            keys.append("join:" + key)
    kinds = {}
    for i, sk in enumerate(sheet.splits):
        gws[sk] = kinds["split:" + sk] = kind if kind is not None and i == at else GW[(i + turn) % 3]
    for key, sk in merged.items():
        kinds["join:" + key] = gws[sk]
    order = list(reversed(keys)) if backwards else keys
    conds = {}
    default = {}
    for i, (sk, (_, cs)) in enumerate(sheet.splits.items()):
        d = None
        if gws[sk] != "parallelGateway" and i == at and full == True:
            d = ctx.pick("default", len(cs) + 1)
        for j, c in enumerate(cs):
            name = ctx.text("flow." + c) if at <= i < at + free else "to " + c if free >= 0 else ("=%d" % j if free == -2 else "=") + ctx.text("flow." + c)
            expr = None
            if i == at and j == 0 and full == True and ctx.flag("expr"):
                expr = ctx.text("expr." + c)
            conds[c] = (name, expr, d == j + 1)
        if d:
            default[sk] = cs[d - 1]
    rows = [r.key for r in sheet.rows if r.kind in ("start", "task", "end")]
    varied = [rows[ctx.pick("varied", len(rows))]] if full == "types" else rows if full and types else []
    for key in order:
        r = sheet.by.get(key)
        if r is None:
            attrs = {}
            if key.startswith("split:") and key[6:] in default:
                attrs["default"] = doc.idn("f." + default[key[6:]])
            nodes[key] = doc.node(p, key, kinds[key], attrs=attrs)
            continue
        r.name = ctx.text("name." + key) if names else "N " + key
        r.text = r.name
        typ = {"start": "startEvent", "task": "task", "subProcess": "subProcess", "end": "endEvent"}[r.kind]
        defs = ()
        if key in varied and r.kind in ("start", "end") and ctx.flag("has_def." + key):
            opts = D.DEFS[typ]
            d = opts[ctx.pick("def." + key, len(opts))]
            defs = [(d, None)]
            if d == "message" or (d == "timer" and r.kind == "start"):
                r.text = d + " " + r.name
        if r.kind == "task" and key in varied:
            typ = D.TASKS[ctx.pick("type." + key, 4)]
        nodes[key] = doc.node(p, key, typ, name=r.name, defs=defs)
    flows = []
    for (s, t), c in sheet.flows.items():
        if c is not None and t in joins:                # an empty branch
            t = joins[t]
        elif t.startswith("join:"):
            t = joins[t[5:]]
        elif s.startswith("join:"):
            if joins[t] == t:
                continue
        elif t in joins and t != joins[t] and not s.startswith("split:"):
            t = joins[t]
        flows.append((s, t, c))
    for key, j in joins.items():
        if j != key and (j, key, None) not in flows:
            flows.append((j, key, None))
    if backwards:
        flows.reverse()
    rank = {}
    for sk, (_, cs) in sheet.splits.items():
        for i, c in enumerate(cs):
            rank[c] = i
    flows.sort(key=lambda f: rank.get(f[2], -1))
    exp = {}
    for i, (s, t, c) in enumerate(flows):
        if c is None:
            doc.flow(p, "f.%d" % i, nodes[s], nodes[t])
            continue
        name, expr, dflt = conds[c]
        doc.flow(p, "f." + c, nodes[s], nodes[t], name=name, cond=None if expr is None else (None, expr))
        if dflt:
            exp[c] = "else"
        elif gws[[k for k, v in sheet.splits.items() if c in v[1]][0]] == "parallelGateway":
            exp[c] = ""
        elif name == "" and expr is not None:
            exp[c] = expr
        else:
            exp[c] = name
    # the order in which the nodes list their outgoing flows is the order of the branches
    for sk, (_, cs) in sheet.splits.items():
        g = nodes["split:" + sk]
        rest = [x for x in g.x.children if not (hasattr(x, "local") and x.local == "outgoing")]
        g.x.children = rest + [X("outgoing", {}, doc.idn("f." + c)) for c in cs]
    return doc, exp


def expected(sheet, conds):
    out = {}
    for r in sheet.rows:
        if r.kind == "goto":
            act = "goto " + (r.goto[1] if isinstance(r.goto, tuple) else sheet.by[r.goto].order)
        else:
            act = r.text
        out[r.order] = [r.order, act, "" if r.cond is None else conds[r.cond], "",
                        "yes" if r.kind == "subProcess" else "", "yes" if r.kind == "end" else ""]
    return out


def export(ctx, dg, name="out.csv"):
    d, name = ctx.outdir() + "new dir/v1.0 \u00e9/", "p 1." + name
    dg.export_csv_file(d, name)
    return d + name


def compare(ctx, rows, want):
    ctx.ok(len(rows) > 0, "the file is empty")
    ctx.eq(list(rows[0]), list(C.HEADER), "header")
    got = {}
    for r in rows[1:]:
        ctx.ok(len(r) == 6, "a row has %d cells" % len(r))
        o = r[0]
        ctx.ok(o not in got, "two rows with the same order number")
        got[o] = r
    ctx.eq(sorted(got), sorted(want), "order numbers")
    for o in want:
        ctx.ok(o in got, "no row " + o)
        if o in got:
            for i, h in enumerate(C.HEADER):
                ctx.eq(got[o][i], want[o][i], "%s of row %s" % (h, o))


def check(ctx, doc, sheet, conds):
    dg = D.load(ctx, write_xml(ctx, "in.bpmn", doc.tree()))
    compare(ctx, read_csv(ctx, export(ctx, dg)), expected(sheet, conds))


def shapes(ctx):
    table = getattr(C, ctx.p("table", "JOINED"))
    s = C.Sheet(C.pick_shape(ctx, table), False)
    kind = GW[ctx.pick("gateway", 3)] if s.splits else None
    free = ctx.p("free", 1)
    at = ctx.pick("at", len(s.splits)) if free == 1 and len(s.splits) > 1 else 0
    doc, conds = build(ctx, s, kind, ctx.flag("by_activity") if s.splits else False, ctx.flag("backwards"),
                       free, ctx.p("names"), at=at)
    check(ctx, doc, s, conds)
    ctx.reach("done")


def generated(ctx):
    """every combination of branches"""
    s = C.Sheet(C.generated(ctx, ctx.p("count"), ctx.p("inner"), False, ctx.p("kinds"), True), False)
    doc, conds = build(ctx, s, None, ctx.flag("by_activity"), False, -2, None, turn=ctx.pick("kinds", 3))
    check(ctx, doc, s, conds)
    ctx.reach("done")


def line(ctx):
    """types, event definitions and names of a line of nodes"""
    k = ctx.p("rows", 2)
    kinds = ["subProcess" if ctx.flag("sub%d" % i) else "task" for i in range(k)] + ["end"]
    s = C.Sheet([C.n("r%d" % i, x) for i, x in enumerate(kinds)])
    doc, conds = build(ctx, s, full=True)
    check(ctx, doc, s, conds)
    ctx.reach("done")


SPLITS = [("two", 0), ("skip", 0), ("skip_three", 0), ("ends", 0), ("two_splits", 1), ("nested", 1), ("nested_b", 1),
          ("nested_ends", 1)]


def branch_events(ctx):
    """tasks of every type and end events with every definition inside branches"""
    s = C.Sheet(C.JOINED[["ends", "one_ends", "nested_ends"][ctx.pick("shape", 3)]], False)
    doc, conds = build(ctx, s, GW[0], full="types", names="text")
    check(ctx, doc, s, conds)
    ctx.reach("done")


def gateway(ctx):
    """default flow, flow names and condition expressions of a split"""
    name, at = SPLITS[ctx.pick("shape", len(SPLITS))]
    s = C.Sheet(C.JOINED[name], False)
    doc, conds = build(ctx, s, GW[ctx.pick("gateway", 3)], full=True, names=None, types=False, at=at)
    check(ctx, doc, s, conds)
    ctx.reach("done")


def shared_end(ctx):
    """branches leading to one end event: it is listed in every branch"""
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    p = dg.add_process_to_diagram()
    st, _ = dg.add_start_event_to_diagram(p, start_event_name=ctx.text("s"))
    a, _ = dg.add_task_to_diagram(p, task_name=ctx.text("a"))
    g, _ = dg.add_exclusive_gateway_to_diagram(p)
    en, _ = dg.add_end_event_to_diagram(p, end_event_name=ctx.text("e"))
    dg.add_sequence_flow_to_diagram(p, st, a)
    dg.add_sequence_flow_to_diagram(p, a, g)
    k = 2 + ctx.pick("more", 2)
    want = {"0": ["0", ctx.text("s"), "", "", "", ""], "1": ["1", ctx.text("a"), "", "", "", ""]}
    direct = 0
    for i in range(k):
        pre = "2" + C.LETTERS[i]
        c = ctx.text("c%d" % i)
        if not direct and ctx.flag("direct%d" % i):
            direct = 1
            dg.add_sequence_flow_to_diagram(p, g, en, sequence_flow_name=c)
            want[pre + "1"] = [pre + "1", ctx.text("e"), c, "", "", "yes"]
        else:
            t, _ = dg.add_task_to_diagram(p, task_name=ctx.text("t%d" % i))
            dg.add_sequence_flow_to_diagram(p, g, t, sequence_flow_name=c)
            dg.add_sequence_flow_to_diagram(p, t, en)
            want[pre + "1"] = [pre + "1", ctx.text("t%d" % i), c, "", "", ""]
            want[pre + "2"] = [pre + "2", ctx.text("e"), "", "", "", "yes"]
    compare(ctx, read_csv(ctx, export(ctx, dg)), want)
    ctx.reach("done")


def entries(ctx):
    """diagrams with no or several entries are rejected, nothing is written"""
    dg = D.new_diagram(ctx)
    dg.create_new_diagram_graph()
    p = dg.add_process_to_diagram()
    n = ctx.pick("nodes", ctx.p("nodes", 3) + 1)
    ids = []
    for i in range(n):
        if i == 0:
            ids.append(dg.add_start_event_to_diagram(p, start_event_name=ctx.text("n0"))[0])
        else:
            ids.append(dg.add_task_to_diagram(p, task_name=ctx.text("n%d" % i))[0])
    fl = []
    for i in range(n):
        for j in range(i + 1, n):
            d = ctx.pick("f%d%d" % (i, j), 3)
            if d:
                s, t = (i, j) if d == 1 else (j, i)
                dg.add_sequence_flow_to_diagram(p, ids[s], ids[t])
                fl.append((s, t))
    ent = [i for i in range(n) if not any(t == i for _, t in fl)]
    err = ctx.mod("bpmn_python.bpmn_diagram_exception").BpmnPythonError
    if len(ent) == 1:
        ctx.skip()
    d = ctx.outdir()
    try:
        dg.export_csv_file(d, "none.csv")
    except err:
        ctx.ok(not file_exists(ctx, d + "none.csv"), "a file was written although the diagram was rejected")
    else:
        ctx.fail("a diagram with %d entries was exported" % len(ent))
    ctx.reach("rejected")


HARNESSES = [
    H("blocks", generated, "every process of a split with 2 branches, each one of: a task, two tasks, an end event (after a "
      "task), empty, a split with two such branches; joins by gateways or activities", {"count": 2, "inner": (1, 1), "kinds": [
          "n", "nn", "e", "ne"]}, {"kinds": None}, reach=["done"], quick_s=150),
    H("three_blocks", generated, "the same with 3 branches, a split (in the second of them)", {"count": 3, "inner": None},
      {"inner": (0, 1, 0)}, reach=["done"], quick_s=100),
    H("line", line, "start event, 2 (4) tasks of any type or sub-processes, end event; any names, every event definition "
      "type", {"rows": 2}, {"rows": 4}, reach=["done"]),
    H("gateway", gateway, "a split of every kind in %d places (after one, inside one, ending in its branches): any flow "
      "names and condition expression, every default flow" % len(SPLITS), reach=["done"]),
    H("branch_events", branch_events, "3 shapes whose branches end: every event definition of each event, every type of "
      "each task", reach=["done"], quick_s=100),
    H("joined", shapes, "%d block-structured shapes (up to 3 nested splits, 3 branches, empty branches, ends), every kind "
      "of every gateway, joins by gateways or by activities, any flow names, nodes and flows listed in two orders"
      % len(C.JOINED), {"table": "JOINED", "free": 1, "names": None}, {"names": "text", "free": 9}, reach=["done"],
      quick_s=100),
    H("long", shapes, "%d shapes with more than 9 rows or 3 branches" % len(C.LONG), {"table": "LONG", "names": None},
      {"names": "text"}, reach=["done"]),
    H("big", shapes, "%d large processes: 104 rows, 26 branches, 6 nested splits, 12 splits one after the other; any names, "
      "any flow names" % len(C.BIG), {"table": "BIG", "names": "text", "free": -1}, reach=["done"]),
    H("shared_end", shared_end, "2 or 3 branches leading to one end event, directly or through a task", reach=["done"]),
    H("entries", entries, "all flow graphs of up to 3 (4) nodes that have no or several entries", {"nodes": 3},
      {"nodes": 4}, reach=["rejected"]),
]
