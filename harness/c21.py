# coding=utf-8
"""C21: diagram objects are independent; resetting a used object leaves nothing behind

Contents of a diagram object: a BPMN document, a spreadsheet or a diagram made with the editing methods. Two objects are
filled one after the other (or alternately), edited and laid out; each has to hold exactly what its own inputs say.
"""
import networkx as nx

from symex.api import H, PropertyFail, write_csv, write_xml
from . import apigen as A
from . import c10, c20
from . import csvgen as C
from . import docgen as D
from . import gens as G
from .snap import same, snap


class Sub(object):
    """the same context with other variable names"""

    def __init__(self, ctx, pre):
        self._ctx, self._pre = ctx, pre

    def __getattr__(self, name):
        f = getattr(self._ctx, name)
        if name in ("text", "ident", "choice", "pick", "flag", "int", "real"):
            return lambda key, *a, **k: f(self._pre + key, *a, **k)
        return f


def rich(ctx):
    """a document with everything"""
    doc = D.Doc(ctx)
    doc.collaboration()
    p = doc.process("p", name=ctx.text("p.name"))
    a = doc.node(p, "a", "startEvent", name=ctx.text("a.name"), defs=[("timer", ctx.ident("tid"))])
    s = doc.node(p, "s", "subProcess", name=ctx.text("s.name"))
    b = doc.node(s, "b", "userTask", name=ctx.text("b.name"))
    doc.flow(p, "f", a, s, name=ctx.text("f.name"), cond=(ctx.ident("cid"), ctx.text("cond")))
    if ctx.flag("more"):
        c = doc.node(s, "c", "endEvent", name=ctx.text("c.name"), defs=[("message", ctx.ident("mid"))])
        doc.flow(s, "g", b, c, name=ctx.text("g.name"))
    if ctx.flag("lanes"):
        doc.lane_set(p, "ls", [("l0", ctx.text("l0.name"), [a], [("l1", ctx.text("l1.name"), [s], None)])])
    q = doc.process("q")
    d = doc.node(q, "d", "task", name=ctx.text("d.name"))
    doc.participant("pp", p, name=ctx.text("pp.name"))
    doc.participant("pq", q, name=ctx.text("pq.name"))
    doc.message_flow("mf", a, d, name=ctx.text("mf.name"))
    return doc


def bare(ctx):
    """a document with one process and no more than it needs"""
    doc = D.Doc(ctx)
    p = doc.process("p")
    a = doc.node(p, "a", "task")
    b = doc.node(p, "b", "exclusiveGateway", name=ctx.text("b.name"))
    doc.flow(p, "f", a, b)
    return doc


def pools(ctx):
    """pools, but no message flows"""
    doc = D.Doc(ctx)
    doc.collaboration()
    p, q = doc.process("p"), doc.process("q")
    doc.node(p, "a", "task", name=ctx.text("a.name"))
    doc.node(q, "b", "task")
    doc.participant("pp", p, name=ctx.text("pp.name"))
    doc.participant("pq", q)
    return doc


class Xml(object):
    """a loaded document"""

    def __init__(self, ctx, dg, gen, name):
        self.doc = gen(ctx)
        dg.load_diagram_from_xml_file(write_xml(ctx, name + ".bpmn", G.finish(ctx, self.doc)))
        self.ctx, self.dg = ctx, dg

    def check(self, what, di=True):
        for f in (D.check_nodes, D.check_flows):
            f(self.ctx, self.dg, self.doc, di=di, what=what)
        D.check_processes(self.ctx, self.dg, self.doc, what=what)
        D.check_lanes(self.ctx, self.dg, self.doc, di=di, what=what)
        D.check_collab(self.ctx, self.dg, self.doc, di=di, what=what)
        D.check_diagram(self.ctx, self.dg, self.doc, what=what)


class Csv(object):
    def __init__(self, ctx, dg, name):
        self.s = C.Sheet(C.JOINED["skip" if ctx.flag("skip") else "two"])
        self.conds = {c: "x%d" % i for i, c in enumerate(self.s.splits["x"][1])}
        dg.load_diagram_from_csv_file(write_csv(ctx, name + ".csv", C.cells(ctx, self.s, self.conds, "text")))
        self.ctx, self.dg = ctx, dg

    def check(self, what, di=True):
        c10.check(self.ctx, self.dg, self.s, self.conds)


class Api(object):
    def __init__(self, ctx, dg, key=""):
        self.ctx, self.dg, self.key = ctx, dg, key
        dg.create_new_diagram_graph(ctx.text("dname"))
        self.name = ctx.text("dname")
        self.nodes, self.flows, self.last = {}, {}, None
        self.pids = [dg.add_process_to_diagram(ctx.text("p.name"))]
        for kind in ("startEvent", "endEvent"):
            self.more(kind)

    def more(self, kind="task"):
        """another node and a flow to it"""
        i = len(self.nodes)
        nid, e = A.add(self.ctx, self.dg, self.pids[0], "n%d" % i, kind, full=False,
                       defn={"startEvent": "message", "endEvent": "terminate"}.get(kind))
        self.nodes[nid] = e
        if self.last is not None:
            A.add_flow(self.ctx, self.dg, self.pids[0], self.nodes, self.flows, "f%d" % i, self.last, nid, named=i % 2 == 1)
        self.last = nid

    def check(self, what, di=True):
        A.check_all(self.ctx, self.dg, self.nodes, self.flows, what)
        self.ctx.eq(self.dg.diagram_attributes["name"], self.name, what + "diagram name")
        self.ctx.eq(len(self.dg.process_elements), 1, what + "number of processes")
        self.ctx.ok(not self.dg.collaboration, what + "collaboration out of nowhere")


KINDS = ["rich", "bare", "csv", "api"]


def fill(ctx, dg, kind, name):
    if kind == "rich":
        return Xml(ctx, dg, rich, name)
    if kind in ("bare", "pools"):
        return Xml(ctx, dg, {"bare": bare, "pools": pools}[kind], name)
    if kind == "csv":
        return Csv(ctx, dg, name)
    return Api(ctx, dg)


def edit(ctx, dg):
    """changes through the methods of the library to whatever is in the diagram"""
    nodes = list(dg.diagram_graph.nodes())
    pid = dg.add_process_to_diagram(ctx.text("edit.p"))
    n = dg.add_task_to_diagram(pid, ctx.text("edit.n"))[0]
    dg.add_start_event_to_diagram(pid, ctx.text("edit.s"), "message")
    dg.add_sequence_flow_to_diagram(pid, nodes[0], n, ctx.text("edit.f"))
    for p in list(dg.process_elements):
        dg.add_end_event_to_diagram(p, ctx.text("edit.e"), "terminate")


def layout(ctx, dg):
    ctx.mod("bpmn_python.bpmn_diagram_layouter").generate_layout(dg)


def scribble(x, seen):
    """spoils everything that can be changed in a diagram object, as a caller can who has its attributes in hand"""
    if id(x) in seen:
        return
    seen[id(x)] = x
    if isinstance(x, dict):
        for v in list(x.values()):
            scribble(v, seen)
        x.clear()
        x["scribble"] = "scribble"
    elif isinstance(x, (list, set)):
        for v in list(x):
            scribble(v, seen)
        x.clear()
        (x.append if isinstance(x, list) else x.add)("scribble")
    elif isinstance(x, tuple):
        for v in x:
            scribble(v, seen)
    elif isinstance(x, nx.Graph):
        for a in [a for _, a in x.nodes(data=True)] + [a for _, _, a in x.edges(data=True)] + [x.graph]:
            scribble(a, seen)


def two(ctx):
    """fill both, edit and lay out the second, look at the first"""
    k1, k2 = KINDS[ctx.pick("kind1", 4)], KINDS[ctx.pick("kind2", 4)]
    if ctx.p("pair") and (k1, k2) not in ctx.p("pair"):
        ctx.skip()
    d1, d2 = D.new_diagram(ctx), D.new_diagram(ctx)
    # the second document uses the same names and ids, or others
    other = Sub(ctx, "" if ctx.flag("clash") else "z.")
    a = fill(ctx, d1, k1, "one")
    b = fill(other, d2, k2, "two")
    a.check("first diagram: ")
    b.check("second diagram: ")
    before = snap(d1)
    edit(ctx, d2)
    same(ctx, snap(d1), before, "first diagram after editing the second")
    if k2 != "rich":
        layout(ctx, d2)
        same(ctx, snap(d1), before, "first diagram after laying out the second")
    third = fill(other, D.new_diagram(ctx), k2, "three")
    third.check("third diagram: ")
    same(ctx, snap(d1), before, "first diagram after filling a third")
    a.check("first diagram at the end: ")
    seen = {}
    other_before = snap(third.dg)
    for v in list(vars(d2).values()):
        scribble(v, seen)
    same(ctx, snap(d1), before, "first diagram after spoiling everything in the second")
    same(ctx, snap(third.dg), other_before, "third diagram after spoiling everything in the second")
    fourth = fill(other, D.new_diagram(ctx), k2, "four")
    fourth.check("diagram loaded after spoiling another: ")
    if k2 != "api":
        same(ctx, snap(fourth.dg), other_before, "diagram loaded after spoiling another")
    ctx.reach(k1 + " " + k2)


def alternate(ctx):
    """two diagrams made with the editing methods, step by step"""
    d1, d2 = D.new_diagram(ctx), D.new_diagram(ctx)
    a, b = Api(ctx, d1), Api(Sub(ctx, "z."), d2)
    for i in range(ctx.p("steps", 3)):
        (a if ctx.flag("first%d" % i) else b).more(A.KINDS[ctx.pick("k%d" % i, 2) * 4])
    a.check("first diagram: ")
    b.check("second diagram: ")
    A.distinct(ctx, list(a.nodes) + list(b.nodes) + list(a.flows) + list(b.flows) + list(d1.process_elements) +
               list(d2.process_elements), "ids of two diagrams")
    if ctx.flag("layout"):
        layout(ctx, d1)
        b.check("second diagram after laying out the first: ")
        a.check("first diagram: ")
    ctx.reach("done")


def reset(ctx):
    """a used object made new is like an unused one"""
    k1, k2 = (KINDS + ["pools"])[ctx.pick("kind1", 5)], KINDS[ctx.pick("kind2", 4)]
    dg = D.new_diagram(ctx)
    fill(ctx, dg, k1, "one")
    if ctx.flag("edited"):
        edit(ctx, dg)
    name = ctx.text("new.name")
    dg.create_new_diagram_graph(name)
    fresh = D.new_diagram(ctx)
    fresh.create_new_diagram_graph(name)
    got, want = snap(dg), snap(fresh)
    ctx.ok(not (got["diagram_attributes"].pop("id") == want["diagram_attributes"].pop("id")), "diagram ids differ")
    same(ctx, got, want, "diagram made new")
    other = Sub(ctx, "" if ctx.flag("clash") else "z.")
    fill(other, dg, k2, "two").check("diagram filled again: ")
    ctx.reach(k1 + " " + k2)


def same_path(ctx):
    """a file is replaced by another and loaded again"""
    k1, k2 = LOADED[ctx.pick("kind1", 4)], LOADED[ctx.pick("kind2", 4)]
    other = Sub(ctx, "" if ctx.flag("clash") else "z.")
    dg = D.new_diagram(ctx)
    a = fill(ctx, dg, k1, "one")
    a.check("first diagram: ")
    before = snap(dg)
    b = fill(other, D.new_diagram(ctx), k2, "one")
    b.check("diagram loaded from a file that was replaced: ")
    same(ctx, snap(dg), before, "first diagram after its file was replaced and loaded again")
    if ctx.flag("again"):
        dg.create_new_diagram_graph()
        fill(ctx, dg, k1, "one").check("diagram loaded again: ")
    ctx.reach(k1 + " " + k2)


def failed(ctx):
    """an import that fails leaves other diagrams, and later imports, alone"""
    d1 = D.new_diagram(ctx)
    k = KINDS[ctx.pick("kind", 4)]
    a = fill(ctx, d1, k, "one")
    before = snap(d1)
    d2 = D.new_diagram(ctx)
    try:
        if ctx.flag("csv"):
            d2.load_diagram_from_csv_file(write_csv(ctx, "bad.csv", [["Order", "Activity"], ["0", "x"], ["0", "y"]]))
        else:
            doc = bare(Sub(ctx, "z."))
            t = G.finish(Sub(ctx, "z."), doc)
            t.children = [c for c in t.children if c.local != "BPMNDiagram"]
            d2.load_diagram_from_xml_file(write_xml(ctx, "bad.bpmn", t))
    except PropertyFail:
        raise
    except Exception:
        ctx.reach("failed")
    same(ctx, snap(d1), before, "first diagram after a failed import")
    fill(Sub(ctx, "y."), D.new_diagram(ctx), k, "three").check("diagram loaded after a failed import: ")
    a.check("first diagram: ")


LOADED = ["rich", "bare", "csv", "pools"]
PAIRS = [k + " " + l for k in KINDS for l in KINDS]
HARNESSES = [
    H("two", two, "two objects, each filled from a rich or a small document, a spreadsheet or by editing, with equal or "
      "other ids; the second edited and laid out", reach=PAIRS, quick_s=90),
    H("alternate", alternate, "two objects built alternately, 3 (4) steps in every order", {"steps": 3}, {"steps": 4},
      reach=["done"], quick_s=100),
    H("reset", reset, "a used object (5 kinds of content, edited or not) made new and filled again (4 kinds)",
      reach=PAIRS + ["pools " + k for k in KINDS],
      quick_s=90),
    H("same_path", same_path, "files of 4 kinds replaced by others under the same name and loaded, also into the same object",
      reach=[k + " " + l for k in LOADED for l in LOADED], quick_s=100),
    H("failed", failed, "an import that fails between two others", reach=["failed"]),
]
