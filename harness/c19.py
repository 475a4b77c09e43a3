# coding=utf-8
"""C19: image and dot output and the on-screen drawing show every node and flow

Symbolic runs replace the drawing libraries at their interface by recorders. Concrete runs use the real libraries for dot
and png and read the dot language they produce; only the matplotlib calls of networkx are recorded in both.
"""
import os
import re

from symex.api import H, X, matches, plain, same_items, write_xml
from . import docgen as D
from . import gens as G


# ---------------------------------------------------------------------------------------------------------
# a reader for the dot language

TOKEN = re.compile(r'\s*(?:("(?:[^"\\]|\\.)*")|(->|--|[{}\[\];,=])|(<[^>]*>)|([A-Za-z_0-9.\x80-\U0010ffff-]+))', re.S)


def dot_tokens(text):
    at, out = 0, []
    text = text.rstrip()
    while at < len(text):
        m = TOKEN.match(text, at)
        if m is None:
            raise ValueError("no dot token at %r" % text[at:at + 30])
        if m.group(1) is not None:
            out.append(("id", unquote(m.group(1))))
        elif m.group(2) is not None:
            out.append(("op", m.group(2)))
        else:
            w = m.group(3) or m.group(4)
            if w.lower() in ("node", "edge", "graph", "digraph", "subgraph", "strict"):
                out.append(("kw", w.lower()))
            else:
                out.append(("id", w))
        at = m.end()
    return out


def unquote(s):
    return re.sub(r'\\(["\\])', r"\1", s[1:-1])


def read_dot(text):
    """-> directed?, nodes [(name, attrs)], edges [(a, b, attrs)]"""
    t = dot_tokens(text)
    i = 0
    if t[i] == ("kw", "strict"):
        i += 1
    if t[i][0] != "kw" or t[i][1] not in ("graph", "digraph"):
        raise ValueError("no graph")
    directed = t[i][1] == "digraph"
    while t[i] != ("op", "{"):
        i += 1
    i += 1
    nodes, edges = [], []
    while t[i] != ("op", "}"):
        if t[i] == ("op", ";"):
            i += 1
            continue
        if t[i][0] == "kw":
            i += 1
            default = True
        else:
            if t[i][0] != "id":
                raise ValueError("unexpected %r" % (t[i],))
            default = False
        if default:
            if t[i] != ("op", "["):
                raise ValueError("unexpected %r" % (t[i],))
            ends = None
        else:
            ends = [t[i][1]]
            i += 1
            if t[i] in (("op", "->"), ("op", "--")):
                if t[i + 1][0] != "id":
                    raise ValueError("unexpected %r" % (t[i + 1],))
                ends.append(t[i + 1][1])
                i += 2
        attrs = {}
        if t[i] == ("op", "["):
            i += 1
            while t[i] != ("op", "]"):
                if t[i] in (("op", ","), ("op", ";")):
                    i += 1
                    continue
                if t[i + 1] != ("op", "=") or t[i + 2][0] != "id":
                    raise ValueError("unexpected %r" % (t[i:i + 3],))
                attrs[t[i][1]] = t[i + 2][1]
                i += 3
            i += 1
        if ends is None:
            continue
        if len(ends) == 1:
            nodes.append((ends[0], attrs))
        else:
            edges.append((ends[0], ends[1], attrs))
    return directed, nodes, edges


# ---------------------------------------------------------------------------------------------------------
# recorders

class Rec(object):
    """stands in for pydotplus.Node / Edge / Dot in symbolic runs"""

    def __init__(self, kind, args, kw):
        self.kind = kind
        self.args = list(args)
        self.kw = dict(kw)
        self.nodes = []
        self.edges = []

    def __getattr__(self, name):
        if name.startswith("set_"):
            def setter(v):
                self.kw[name[4:]] = v
            return setter
        if name.startswith("write") or name == "create":
            def write(*a, **k):
                Rec.written.append(self)
                return True
            return write
        raise AttributeError(name)

    def set(self, k, v):
        self.kw[k] = v

    def add_node(self, n):
        self.nodes.append(n)

    def add_edge(self, e):
        self.edges.append(e)

    written = []


class Patch(object):
    def __init__(self):
        self.undo = []

    def set(self, obj, name, value, others=()):
        old = getattr(obj, name)
        for o in (obj,) + tuple(others):
            for k, v in list(vars(o).items()):
                if v is old and (k == name or o is not obj):
                    setattr(o, k, value)
                    self.undo.append((o, k, old))
        return old

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for o, k, v in reversed(self.undo):
            setattr(o, k, v)
        return False


def vis(ctx):
    return ctx.mod("bpmn_python.bpmn_diagram_visualizer")


def quote(text):
    return '"' + text.replace("\\", "\\\\").replace('"', '\\"') + '"'


def text_of(ctx, value):
    """the text a value handed to pydotplus stands for in the dot language, in quotes"""
    if value is None:
        return '""'
    if value.startswith('"') and value.endswith('"') and len(plain(value)) > 1:
        return value
    import pydotplus
    from symex.core import pin
    q = pydotplus.graphviz.quote_if_necessary(pin(value))
    toks = dot_tokens(str(q))
    if len(toks) != 1 or toks[0][0] != "id":
        ctx.fail("label or name %r is no word of the dot language" % plain(value))
    return quote(toks[0][1])


def draw_png(ctx, dg):
    """-> nodes [(name, label)], edges [(source, target, label)]"""
    import pydotplus
    v = vis(ctx)
    with Patch() as p:
        if ctx.symbolic:
            Rec.written = []
            for kind in ("Node", "Edge", "Dot"):
                p.set(pydotplus, kind, (lambda kk: lambda *a, **k: Rec(kk, a, k))(kind), (v,))
            v.bpmn_diagram_to_png(dg, ctx.outdir() + "my pic.v1")
            ctx.ok(len(Rec.written) == 1, "a picture is written")
            g = Rec.written[0]
            nodes = [(text_of(ctx, n.kw.get("name", n.args[0] if n.args else "")), text_of(ctx, n.kw.get("label")))
                     for n in g.nodes]
            edges = []
            for e in g.edges:
                a = e.args + [None, None]
                s, t = e.kw.get("src", a[0]), e.kw.get("dst", a[1] if "src" not in e.kw else a[0])
                edges.append((text_of(ctx, s), text_of(ctx, t), text_of(ctx, e.kw.get("label"))))
            ctx.ok(g.kw.get("graph_type", (g.args + ["digraph"])[0]) == "digraph", "arrows have a direction")
            return nodes, edges
        out = []
        orig = pydotplus.Dot.create

        def create(self, *a, **k):
            out.append(self.to_string())
            return b"PNG"
        p.set(pydotplus.graphviz.Dot, "create", create)
        v.bpmn_diagram_to_png(dg, ctx.outdir() + "my pic.v1")
        ctx.ok(os.path.exists(ctx.outdir() + "my pic.v1.png"), "no picture was written")
    ctx.ok(len(out) == 1, "a picture is written once")
    try:
        directed, nodes, edges = read_dot(out[0])
    except (ValueError, IndexError) as e:
        ctx.fail("the picture's source is not dot: %s" % e)
    ctx.ok(directed, "arrows have a direction")
    return [(n, a.get("label", n)) for n, a in nodes], [(a, b, x.get("label", "")) for a, b, x in edges]


def expect(dg):
    nodes = [(n, a["node_name"]) for n, a in dg.diagram_graph.nodes(data=True)]
    edges = [(a["sourceRef"], a["targetRef"], a["name"]) for _, _, a in dg.diagram_graph.edges(data=True)]
    return nodes, edges


def check_png(ctx, dg):
    nodes, edges = draw_png(ctx, dg)
    wn, we = expect(dg)
    if ctx.symbolic:
        wn, we = [tuple(map(quote, x)) for x in wn], [tuple(map(quote, x)) for x in we]
    same_items(ctx, nodes, wn, "nodes and labels of the picture")
    same_items(ctx, edges, we, "arrows and labels of the picture")


def check_dot(ctx, dg):
    v = vis(ctx)
    wn, we = expect(dg)
    path = ctx.outdir() + "my pic.v1"
    if ctx.symbolic:
        import networkx as nx
        import networkx.drawing.nx_pydot as nxp
        got = []
        with Patch() as p:
            p.set(nxp, "write_dot", lambda G, path, *a, **k: got.append((G, path)), (v, nx, nx.drawing))
            v.bpmn_diagram_to_dot_file(dg, path)
        if not got:
            return
        ctx.ok(len(got) == 1 and plain(got[0][1]) == path + ".dot", "one dot file is written")
        g = got[0][0]
        nodes = [(n, a.get("node_name")) for n, a in g.nodes(data=True)]
        edges = [(a.get("sourceRef"), a.get("targetRef"), a.get("name")) for _, _, a in g.edges(data=True)]
        ends = [frozenset((plain(a), plain(b))) for a, b in g.edges()]
        ctx.ok(len(ends) == len(set(ends)) == len(we), "number of lines of the dot file")
        if g.is_directed():
            for a, b, d in g.edges(data=True):
                ctx.eq((a, b), (d.get("sourceRef"), d.get("targetRef")), "ends of an arrow of the dot file")
    else:
        v.bpmn_diagram_to_dot_file(dg, path)
        with open(path + ".dot") as f:
            try:
                directed, ns, es = read_dot(f.read())
            except (ValueError, IndexError) as e:
                ctx.fail("not a dot file: %s" % e)
        nodes = [(n, a.get("node_name")) for n, a in ns]
        edges = [(a.get("sourceRef"), a.get("targetRef"), a.get("name")) for _, _, a in es]
        for a, b, x in es:
            ends = (x.get("sourceRef"), x.get("targetRef"))
            ctx.ok((a, b) == ends or (not directed and (b, a) == ends), "ends of a line of the dot file")
    same_items(ctx, nodes, wn, "nodes and names of the dot file")
    same_items(ctx, edges, we, "flows and names of the dot file")


def check_drawing(ctx, dg, pos):
    import matplotlib.pyplot as plt
    import networkx as nx
    v = vis(ctx)
    drawn, labels, lines, line_labels, positions, shown = [], {}, [], {}, [], []

    # the names of the parameters are networkx's
    def nodes(G, pos, nodelist=None, *a, **k):
        drawn.extend(list(G.nodes()) if nodelist is None else list(nodelist))
        positions.append(pos)

    def lab(G, pos, *a, **k):
        given = k.get("labels", a[0] if a else None)
        labels.update({n: n for n in G.nodes()} if given is None else given)
        positions.append(pos)

    def edges(G, pos, edgelist=None, *a, **k):
        lines.extend(list(G.edges()) if edgelist is None else list(edgelist))
        positions.append(pos)

    def elab(G, pos, edge_labels=None, *a, **k):
        line_labels.update(edge_labels or {})
        positions.append(pos)
    with Patch() as p:
        for name, f in (("draw_networkx_nodes", nodes), ("draw_networkx_labels", lab), ("draw_networkx_edges", edges),
                        ("draw_networkx_edge_labels", elab)):
            p.set(nx, name, f, (v,))
        p.set(plt, "show", lambda *a, **k: shown.append(1), (v,))
        v.visualize_diagram(dg)
    ctx.ok(len(shown) == 1, "the drawing is shown once")
    wn, we = expect(dg)
    same_items(ctx, drawn, [n for n, _ in wn], "nodes drawn")
    same_items(ctx, list(labels.items()), wn, "node labels")

    def direct(pairs):
        out = []
        for a, b in pairs:
            out.append(next(((s, t) for s, t, _ in we if (s == a and t == b) or (s == b and t == a)), (a, b)))
        return out
    same_items(ctx, direct(lines), [(s, t) for s, t, _ in we], "flows drawn")
    same_items(ctx, [d + (n,) for d, n in zip(direct(line_labels), line_labels.values())], we, "flow labels")
    for ps in positions:
        ctx.eq(len(ps), len(pos), "number of positions")
        for n, xy in pos.items():
            hit = [q for m, q in ps.items() if m == n]
            ctx.ok(len(hit) == 1, "position of a node")
            ctx.eq(list(hit[0]), list(xy), "position of a node")


# ---------------------------------------------------------------------------------------------------------

def finish(ctx, doc, how):
    dg = D.load(ctx, write_xml(ctx, "in.bpmn", doc.tree()))
    if how == "png":
        check_png(ctx, dg)
    elif how == "dot":
        for n in list(doc.order) + list(doc.flows.values()) + doc.parts + doc.mflows:
            for t in (n.exp.get("node_name", ""), n.exp.get("name", "")):
                # what pydot cannot write
                if matches(t, r'(?s).*\\') or matches(t, r'(?s)[<"].*[>"]\Z'):
                    ctx.skip()
        check_dot(ctx, dg)
    else:
        pos = {}
        for i, (n, a) in enumerate(dg.diagram_graph.nodes(data=True)):
            a["x"], a["y"] = str(10 * i), str(7 * i + 0.5)
            pos[n] = (10.0 * i, 7 * i + 0.5)
        check_drawing(ctx, dg, pos)
    ctx.reach("done")


def types(ctx):
    doc = D.Doc(ctx)
    p = doc.process("p")
    typ = D.NODE_TYPES[ctx.pick("type", len(D.NODE_TYPES))]
    a = doc.node(p, "a", typ, name=G.opt_text(ctx, "a.name"))
    b = doc.node(p, "b", D.NODE_TYPES[ctx.pick("type2", len(D.NODE_TYPES))] if ctx.p("two") else "task",
                 name=ctx.text("b.name"))
    s, t = (a, b) if ctx.flag("forward") else (b, a)
    doc.flow(p, "f", s, t, name=G.opt_text(ctx, "f.name"))
    finish(ctx, doc, ctx.p("how"))


def flows(ctx):
    n, m = ctx.p("nodes", 3), ctx.p("flows", 3)
    doc = D.Doc(ctx)
    p = doc.process("p")
    ns = [doc.node(p, "n%d" % i, ["task", "exclusiveGateway", "endEvent", "task"][i], name="N%d" % i) for i in range(n)]
    fl = list(G.pick_flows(ctx, n, m))
    for i, (a, b) in enumerate(fl):
        doc.flow(p, "f%d" % i, ns[a], ns[b], name=ctx.text("f%d.name" % i) if i == 0 else "F%d" % i)
    finish(ctx, doc, ctx.p("how"))


def pools(ctx):
    finish(ctx, G.collab(ctx), ctx.p("how"))


def big(ctx):
    finish(ctx, G.big(ctx), ctx.p("how"))


def nested(ctx):
    finish(ctx, G.nesting(ctx), ctx.p("how"))


HARNESSES = []
for _how in ("png", "dot", "screen"):
    HARNESSES += [
        H(_how + "_types", types, "%s: two nodes, one of every type, any names, a flow in either direction" % _how,
          {"how": _how}, {"two": True}, reach=["done"]),
        H(_how + "_flows", flows, "%s: 3 nodes (4), every set of at most 3 flows, one per pair of nodes" % _how,
          {"how": _how, "nodes": 3, "flows": 3}, {"nodes": 4, "flows": 3}, reach=["done"]),
        H(_how + "_pools", pools, "%s: up to two pools with and one without a process, up to 2 message flows" % _how,
          {"how": _how}, reach=["done"]),
        H(_how + "_big", big, _how + ": a document of 88 nodes, sub-processes and lanes four deep, 9 pools, 42 flows (C01 big)",
          dict({"how": _how}, **({"domain": "token", "variants": 2} if _how == "dot" else {})), reach=["done", "big"]),
    ]
HARNESSES += [H("png_nested", nested, "png: nested sub-processes", {"how": "png"}, reach=["done"])]
