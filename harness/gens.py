# coding=utf-8
"""families of BPMN documents; structure is forked, content is symbolic"""
from .docgen import (ATTRS, DEFS, Doc, EVENTS, FOREIGN, GATEWAYS, LEAF_KINDS, NODE_TYPES, NOISE, ORDERS, PROC_ATTRS, add_foreign,
                     add_noise, dress_leaves, reorder)

PREFIXES = ["", "bpmn:", "semantic:"]


def opt_text(ctx, key, domain="text"):
    return ctx.text(key, domain) if ctx.flag("has." + key) else None


def attrs_for(ctx, typ, key):
    out = {}
    for k, d in ATTRS[typ]:
        if k == "attachedToRef" or ctx.flag("has.%s.%s" % (key, k)):
            out[k] = ctx.text("%s.%s" % (key, k))
    return out


def node_attrs(ctx):
    """one node of any type, every attribute present or absent"""
    doc = Doc(ctx, PREFIXES[ctx.pick("prefix", ctx.p("prefixes", 2))])
    p = doc.process("p")
    typ = NODE_TYPES[ctx.pick("type", len(NODE_TYPES))]
    ctx.reach(typ)
    doc.node(p, "n", typ, name=opt_text(ctx, "n.name"), attrs=attrs_for(ctx, typ, "n"))
    return doc


def event_defs(ctx):
    """one event of any kind with up to `defs` event definitions of any of its types"""
    doc = Doc(ctx)
    p = doc.process("p")
    evs = sorted(DEFS)
    typ = evs[ctx.pick("type", len(evs))]
    n = ctx.pick("ndefs", ctx.p("defs", 2) + 1)
    defs = []
    for i in range(n):
        d = DEFS[typ][ctx.pick("def%d" % i, len(DEFS[typ]))]
        # the schema lets a definition have no id; two definitions of one type are legal too
        did = ctx.ident("def%d.id" % i) if (i > 0 or ctx.flag("has.def0.id")) else None
        defs.append((d, did))
    attrs = {"attachedToRef": ctx.text("n.att")} if typ == "boundaryEvent" else {}
    doc.node(p, "n", typ, name=ctx.text("n.name"), attrs=attrs, defs=defs)
    ctx.reach("defs%d" % n)
    return doc


def process_attrs(ctx):
    """up to two processes, every process attribute present or absent; plane and diagram attributes"""
    doc = Doc(ctx, PREFIXES[ctx.pick("prefix", ctx.p("prefixes", 2))])
    n = 1 + ctx.pick("nproc", 2)
    for i in range(n):
        a = {}
        for k, _ in PROC_ATTRS:
            if i == 0 and ctx.flag("has.p%d.%s" % (i, k)) or i == 1:
                a[k] = ctx.text("p%d.%s" % (i, k))
        p = doc.process("p%d" % i, **a)
        doc.node(p, "n%d" % i, "task", name=ctx.text("n%d.name" % i))
    ctx.reach("procs%d" % n)
    return doc


def pairs(n, loops=True):
    return [(i, j) for i in range(n) for j in range(n) if i != j or loops]


_combos = {}


def flow_sets(n, m, loops=True):
    """all sets of at most m ordered pairs over n nodes, at most one per unordered pair"""
    if (n, m, loops) not in _combos:
        import itertools
        prs = pairs(n, loops)
        out = []
        for k in range(m + 1):
            for c in itertools.combinations(prs, k):
                if len({frozenset(x) for x in c}) == k:
                    out.append(c)
        _combos[(n, m, loops)] = out
    return _combos[(n, m, loops)]


def pick_flows(ctx, n, m, loops=True):
    """at most m flows between n nodes, at most one per unordered pair (see known findings)"""
    cs = flow_sets(n, m, loops)
    return cs[ctx.pick("flowset", len(cs))]


def flows(ctx):
    """one process, `nodes` nodes, any flow set; content of the flows fully present"""
    doc = Doc(ctx)
    p = doc.process("p")
    n = ctx.p("nodes", 3)
    ns = [doc.node(p, "n%d" % i, ["startEvent", "exclusiveGateway", "task", "endEvent"][i % 4],
                   name=ctx.text("n%d.name" % i)) for i in range(n)]
    fl = pick_flows(ctx, n, ctx.p("flows", 2))
    ls = ctx.flag("listed")
    for i, (a, b) in enumerate(fl):
        doc.flow(p, "f%d" % i, ns[a], ns[b], name=ctx.text("f%d.name" % i), list_src=ls, list_tgt=ls)
    ctx.reach("flows%d" % len(fl))
    return doc


def flow_attrs(ctx):
    """one flow, everything optional about it"""
    doc = Doc(ctx)
    p = doc.process("p")
    ns = [doc.node(p, "n%d" % i, ["exclusiveGateway", "task"][i], name=ctx.text("n%d.name" % i)) for i in range(2)]
    a, b = [(0, 1), (1, 0), (0, 0)][ctx.pick("ends", 3)]
    name = opt_text(ctx, "f0.name")
    cond = None
    if ctx.flag("has.f0.cond"):
        cond = (ctx.ident("f0.cond.id") if ctx.flag("has.f0.cond.id") else None, ctx.text("f0.cond"))
        ctx.reach("condition")
    doc.flow(p, "f0", ns[a], ns[b], name=name, cond=cond, list_src=ctx.flag("list.src"), list_tgt=ctx.flag("list.tgt"))
    return doc


def nesting(ctx):
    """sub-processes nested up to depth `depth`, with nodes and flows inside, in one of two processes"""
    doc = Doc(ctx)
    np = 1 + ctx.pick("nproc", 2)
    ps = [doc.process("p%d" % i, name=ctx.text("p%d.name" % i)) for i in range(np)]
    cont = ps[ctx.pick("inproc", np)]
    for i, p in enumerate(ps):
        a = doc.node(p, "a%d" % i, "startEvent", name=ctx.text("a%d.name" % i))
        b = doc.node(p, "b%d" % i, "task", name=ctx.text("b%d.name" % i))
        doc.flow(p, "fab%d" % i, a, b, name=ctx.text("fab%d.name" % i))
    depth = ctx.pick("depth", ctx.p("depth", 2) + 1)
    for d in range(depth):
        s = doc.node(cont, "s%d" % d, "subProcess", name=ctx.text("s%d.name" % d))
        k = ctx.pick("kids%d" % d, 3)
        ns = [doc.node(s, "s%d.n%d" % (d, i), ["task", "endEvent"][i], name=ctx.text("s%d.n%d.name" % (d, i)))
              for i in range(k)]
        if k == 2 and ctx.flag("sflow%d" % d):
            cond = (ctx.ident("sc%d.id" % d), ctx.text("sc%d" % d)) if ctx.flag("scond%d" % d) else None
            doc.flow(s, "sf%d" % d, ns[0], ns[1], name=ctx.text("sf%d.name" % d), cond=cond)
        if d + 1 < depth and ctx.flag("sibling%d" % d):
            pass
        else:
            cont = s
    ctx.reach("depth%d" % depth)
    if depth and ctx.p("exflag"):
        doc.add_di(expanded=ctx.flag("expanded"))
        doc.di_done = True
    return doc


def elsewhere(ctx):
    """flows written in another process or sub-process than the nodes they connect"""
    doc = Doc(ctx)
    p, q = doc.process("p"), doc.process("q")
    s = doc.node(p, "s", "subProcess", name=ctx.text("s.name"))
    u = doc.node(s, "u", "subProcess", name=ctx.text("u.name"))
    conts = [p, q, s, u]
    ns = [doc.node(c, "n%d.%d" % (i, j), ["task", "endEvent"][j], name=ctx.text("n%d.%d.name" % (i, j)))
          for i, c in enumerate(conts) for j in range(2)]
    a = ctx.pick("from", 4)
    b = ctx.pick("to", 4)
    doc.flow(conts[ctx.pick("in", 4)], "f", ns[2 * a], ns[2 * b + 1], name=ctx.text("f.name"))
    ctx.reach("crossing" if a != b else "local")
    return doc


def lanes(ctx):
    """lane sets with up to `lanes` lanes, node references, nested child lanes up to depth `depth`"""
    doc = Doc(ctx)
    p = doc.process("p")
    ns = [doc.node(p, "n%d" % i, "task", name=ctx.text("n%d.name" % i)) for i in range(2)]
    nl = ctx.pick("nlanes", ctx.p("lanes", 2) + 1)
    has_id = ctx.flag("lsid")

    def child(key, depth):
        if depth == 0 or not ctx.flag("child." + key):
            return None
        ctx.reach("child%d" % depth)
        k = (ctx.pick("nchild." + key, 3) + 1) % 3
        return [("%s.%d" % (key, i), ctx.text("%s.%d.name" % (key, i)), [ns[1]] if i == 0 else [],
                 child("%s.%d" % (key, i), depth - 1) if i == 0 else None) for i in range(k)]
    ls = []
    for i in range(nl):
        if i == 0:
            refs = [ns[j] for j in range(2) if ctx.flag("ref%d" % j)]
            ls.append(("l0", opt_text(ctx, "l0.name"), refs, child("l0", ctx.p("depth", 2))))
        else:
            ls.append(("l%d" % i, ctx.text("l%d.name" % i), [ns[1]], None))
    doc.lane_set(p, "ls", ls, with_id=has_id)
    ctx.reach("lanes%d" % nl)
    if ctx.flag("second"):
        q = doc.process("q")
        m = doc.node(q, "m", "task", name=ctx.text("m.name"))
        if ctx.flag("q.lanes"):
            doc.lane_set(q, "qls", [("ql", ctx.text("ql.name"), [m], None)])
    return doc


def collab(ctx):
    """a collaboration: up to two pools with a process, up to one without, message flows between nodes and pools"""
    doc = Doc(ctx)
    doc.collaboration()
    np = 1 + ctx.pick("npools", 2)
    ends = []
    for i in range(np):
        p = doc.process("p%d" % i)
        n = doc.node(p, "n%d" % i, "task", name=ctx.text("n%d.name" % i))
        pool = doc.participant("part%d" % i, p, name=opt_text(ctx, "part%d.name" % i) if i == 0
                               else ctx.text("part%d.name" % i))
        ends.append(pool if i == 1 and ctx.flag("at_pool") else n)
    if ctx.flag("external"):
        ends.append(doc.participant("ext", None, name=ctx.text("ext.name")))
        ctx.reach("external")
    m = doc.node(doc.procs[0], "m", "endEvent", name=ctx.text("m.name"))
    doc.flow(doc.procs[0], "f", doc.order[0], m, name=ctx.text("f.name"))
    prs = [(i, j) for i in range(len(ends)) for j in range(len(ends)) if i != j]
    k = 0
    if prs:
        k = ctx.pick("nmsg", min(len(prs), ctx.p("msgs", 2)) + 1)
        used = set()
        lo = 0
        for i in range(k):
            ix = ctx.pick("msg%d" % i, len(prs))
            if ix < lo:
                ctx.skip()
            lo = ix + 1
            a, b = prs[ix]
            if frozenset((a, b)) in used:
                ctx.skip()
            used.add(frozenset((a, b)))
            doc.message_flow("mf%d" % i, ends[a], ends[b], name=opt_text(ctx, "mf0.name") if i == 0
                             else ctx.text("mf%d.name" % i))
    if k and ctx.flag("flows_first"):
        doc.cx.children.sort(key=lambda x: 0 if x.local == "messageFlow" else 1)
    ctx.reach("msgs%d" % k)
    return doc


def no_pools(ctx):
    """a collaboration without pools: message flows between the nodes of two processes, or nothing at all"""
    doc = Doc(ctx)
    doc.collaboration()
    ns = [doc.node(doc.process("p%d" % i), "n%d" % i, "task", name=ctx.text("n%d.name" % i)) for i in range(2)]
    for i in range(ctx.pick("nmsg", 2)):
        doc.message_flow("mf%d" % i, ns[0], ns[1], name=ctx.text("mf%d.name" % i))
    return doc


def di(ctx):
    """bounds, waypoints (0..`ways` per flow), isExpanded present or absent, nested nodes"""
    doc = Doc(ctx)
    p = doc.process("p")
    a = doc.node(p, "a", "startEvent", name=ctx.text("a.name"))
    s = doc.node(p, "s", "subProcess", name=ctx.text("s.name"))
    b = doc.node(s, "b", "task", name=ctx.text("b.name"))
    c = doc.node(s, "c", "task", name=ctx.text("c.name"))
    doc.flow(p, "f", a, s, name=ctx.text("f.name"))
    doc.flow(s, "g", b, c, name=ctx.text("g.name"))
    return doc


def everything(ctx, doc):
    """a document using every construct"""
    doc.collaboration()
    p = doc.process("p", name=ctx.text("p.name"))
    a = doc.node(p, "a", "startEvent", name=ctx.text("a.name"), defs=[("timer", ctx.ident("tid"))])
    s = doc.node(p, "s", "subProcess", name=ctx.text("s.name"))
    b = doc.node(s, "b", "userTask", name=ctx.text("b.name"))
    c = doc.node(s, "c", "endEvent", name=ctx.text("c.name"))
    doc.flow(p, "f", a, s, name=ctx.text("f.name"), cond=(ctx.ident("cid"), ctx.text("cond")))
    doc.flow(s, "g", b, c, name=ctx.text("g.name"))
    doc.lane_set(p, "ls", [("l0", ctx.text("l0.name"), [a], [("l1", ctx.text("l1.name"), [s], None)])])
    q = doc.process("q")
    d = doc.node(q, "d", "task", name=ctx.text("d.name"))
    doc.participant("pp", p, name=ctx.text("pp.name"))
    doc.participant("pq", q, name=ctx.text("pq.name"))
    doc.message_flow("mf", a, d, name=ctx.text("mf.name"))
    return doc


def noise(ctx):
    """everything at once, with content that has to be ignored in every container"""
    kind = NOISE[ctx.pick("noise", len(NOISE))]
    doc = Doc(ctx, PREFIXES[ctx.pick("prefix", len(PREFIXES))], ["bpmndi:", "x:"][ctx.pick("dprefix", 2)])
    everything(ctx, doc)
    doc.noise_kind = kind
    ctx.reach(kind)
    return doc


def leaves(ctx):
    """everything at once, the texts of references and conditions written in other ways"""
    doc = everything(ctx, Doc(ctx))
    kind = LEAF_KINDS[ctx.pick("leaf", len(LEAF_KINDS))]
    ck = ["plain", "comment", "cdata", "split"][ctx.pick("condkind", 4)]
    if ck == "split":
        c = doc.flows[list(doc.flows)[0]].exp["conditionExpression"]
        c["conditionExpression"] = "a < b" + c["conditionExpression"] + " && c"
    doc.dress = lambda t: dress_leaves(t, kind, ck)
    ctx.reach(kind)
    ctx.reach("cond_" + ck)
    return doc


UNDRAWN = [(), ("node",), ("dataObject",), ("subProcess",), ("endEvent", "task"), ("flow",), ("message",), ("lane",),
           ("pool",), ("horizontal",), ("node", "flow", "message", "lane", "pool")]


def undrawn(ctx):
    """everything at once, parts of it missing in the drawing"""
    doc = Doc(ctx)
    kind = UNDRAWN[ctx.pick("undrawn", len(UNDRAWN))]
    doc.not_drawn = kind
    everything(ctx, doc)
    doc.node(doc.procs[0], "do", "dataObject", name=ctx.text("do.name"))
    ctx.reach("undrawn " + ",".join(kind))
    return doc


def foreign(ctx):
    """everything at once, with standard BPMN content the library does not represent"""
    doc = everything(ctx, Doc(ctx, PREFIXES[ctx.pick("prefix", 2)]))
    kind = FOREIGN[ctx.pick("foreign", len(FOREIGN))]
    doc.dress = lambda t: add_foreign(doc, t, kind)
    ctx.reach(kind)
    return doc


def orders(ctx):
    """everything at once, its elements in another order"""
    doc = everything(ctx, Doc(ctx))
    kind = ORDERS[ctx.pick("order", len(ORDERS))]
    doc.dress = lambda t: reorder(t, kind)
    ctx.reach(kind)
    return doc


class Alike(dict):
    """ids that differ in the case of their letters, or in what precedes or follows them"""
    def __contains__(self, key):
        return True

    def __missing__(self, key):
        n, k = divmod(len(self), 12)
        v = ["ab", "Ab", "aB", "AB", "ab_", "_ab", "ab.", "abab", "ab1", "ab11", "a-b", u"\u00e4b"][k] + ("k%d" % n if n else "")
        self[key] = v
        assert len(set(self.values())) == len(self)
        return v


def big(ctx):
    """one document with more of everything than the other families have: every node type with every attribute, every
    event definition, sub-processes four deep, lanes four deep, a gateway with seven flows, several pools"""
    doc = Doc(ctx, "bpmn:")
    how = ctx.pick("variant", ctx.p("variants", 3))
    if how == 1:
        doc.ids = Alike()
    doc.collaboration()

    def T(key):
        v = ctx.text(key, ctx.p("domain", "text"))
        return v + "=" * 1500 + v if how == 2 else v
    ps = [doc.process("p%d" % i, **{k: T("p%d.%s" % (i, k)) for k, _ in PROC_ATTRS}) for i in range(7)]
    p = ps[0]
    every = []
    for typ in NODE_TYPES:
        k = "e." + typ
        n = doc.node(p, k, typ, name=T(k + ".name"), attrs={a: T("%s.%s" % (k, a)) for a, _ in ATTRS[typ]},
                     defs=[(d, doc.idn("%s.%s" % (k, d))) for d in DEFS.get(typ, [])])
        every.append(n)
    tasks = [doc.node(ps[1], "t%d" % i, ["task", "userTask", "exclusiveGateway"][i % 3], name=T("t%d.name" % i))
             for i in range(9)]
    fi = [0]

    def flow(cont, a, b, cond=False, **kw):
        k = "f%d" % fi[0]
        fi[0] += 1
        # (empty conditions and names of conditional flows are decided in the other families)
        name = T(k + ".name")
        if cond:
            name, cond = "n" + name, (doc.idn(k + ".cid"), "=" + T(k + ".cond"))
        return doc.flow(cont, k, a, b, name=name, cond=cond or None, **kw)
    chain = [n for n in every if n.exp["type"] not in ("dataObject", "boundaryEvent")]
    for i in range(len(chain) - 1):
        flow(p, chain[i], chain[i + 1], i % 3 == 0, list_src=i % 4 != 1, list_tgt=i % 5 != 2)
    for i in range(7):
        flow(ps[1], tasks[2], tasks[[0, 1, 3, 4, 5, 6, 7][i]], i % 2 == 1)
    for i in (3, 4, 5, 6):
        flow(ps[1], tasks[i], tasks[8], list_src=False, list_tgt=False)
    cont = ps[2]
    for d in range(4):
        sub = doc.node(cont, "s%d" % d, "subProcess", name=T("s%d.name" % d), attrs={"triggeredByEvent": T("s%d.trig" % d)})
        a = doc.node(sub, "s%d.a" % d, "startEvent", name=T("s%d.a.name" % d), defs=[("signal", doc.idn("s%d.def" % d))])
        b = doc.node(sub, "s%d.b" % d, GATEWAYS[d], name=T("s%d.b.name" % d))
        c = doc.node(sub, "s%d.c" % d, "endEvent", name=T("s%d.c.name" % d))
        e = doc.node(sub, "s%d.e" % d, "manualTask", name=T("s%d.e.name" % d))
        flow(sub, a, b)
        flow(sub, b, c, True)
        flow(sub, b, e, True)
        flow(sub, e, c)
        cont = sub if d % 2 == 0 or d == 1 else cont
    for typ in EVENTS:
        doc.node(ps[3], "many." + typ, typ, name=T("many.%s.name" % typ), defs=[
            (d, doc.idn("many.%s.%d%d" % (typ, j, i))) for j, d in enumerate(DEFS[typ][:2]) for i in range(5 - 3 * j)])
    for i in (4, 5):
        a = doc.node(ps[i], "q%d" % i, "startEvent", name=T("q%d.name" % i))
        b = doc.node(ps[i], "r%d" % i, "task", name=T("r%d.name" % i))
        flow(ps[i], a, b)
    side = doc.node(doc.procs[2], "side", "subProcess", name=T("side.name"))
    inner = doc.node(side, "side.in", "subProcess", name=T("side.in.name"))
    for c, k in ((side, "side."), (inner, "inner.")):
        for typ in NODE_TYPES:
            doc.node(c, k + typ, typ, name=T(k + typ + ".name"), attrs={a: T("%s.%s" % (k + typ, a)) for a, _ in ATTRS[typ]})

    def lane(key, refs, *kids):
        return (key, T(key + ".name"), refs, list(kids) or None)
    e = every
    doc.lane_set(p, "ls", [
        lane("l0", e[0:2], lane("l00", e[2:4], lane("l000", e[4:5], lane("l0000", e[5:8]), lane("l0001", [])),
                                lane("l001", e[8:9])), lane("l01", e[9:10])),
        lane("l1", e[10:14], lane("l10", [])), lane("l2", e[14:16]), lane("l3", [])])
    doc.lane_set(ps[1], "ls1", [lane("m0", tasks[0:5]), lane("m1", tasks[5:9])])
    doc.lane_set(ps[6], "ls6", [lane("k%d" % i, []) for i in range(8)])
    parts = [doc.participant("part%d" % i, q, name=T("part%d.name" % i)) for i, q in enumerate(ps)]
    ext = [doc.participant("ext%d" % i, None, name=T("ext%d.name" % i)) for i in range(2)]
    deep = doc.nodes[doc.idn("s3.c")]
    for i, (a, b) in enumerate([(e[0], tasks[0]), (tasks[1], e[1]), (ext[0], e[2]), (tasks[3], ext[0]), (ext[1], ext[0]),
                                (deep, ext[1]), (tasks[4], deep), (parts[2], e[3]), (tasks[5], parts[0]), (parts[0], ext[1]), (parts[2], parts[1])]):
        doc.message_flow("mf%d" % i, a, b, name=T("mf%d.name" % i))
    n = [1]

    def ways(f):
        n[0] = n[0] % 7 + 2
        return n[0] if f.key != "f1" else 24
    doc.add_di(nways=ways)
    doc.di_done = True
    doc.dname = T("diagram.name")
    ctx.reach("big")
    return doc


def finish(ctx, doc, **kw):
    """the document tree of a generated document"""
    if not getattr(doc, "di_done", False):
        doc.add_di(**kw)
    t = doc.tree(diagram_name=opt_text(ctx, "diagram.name") if ctx.p("dname") else getattr(doc, "dname", None))
    t = getattr(doc, "dress", lambda x: x)(t)
    return add_noise(t, getattr(doc, "noise_kind", "none"))
