# coding=utf-8
"""C18: the element classes keep values of the documented types and reject all others"""
from symex.api import H

B = "bpmn_python.graph.classes."
MODULE = {
    "BaseElement": "base_element_type", "ConditionExpression": "condition_expression_type",
    "FlowElement": "flow_element_type", "FlowNode": "flow_node_type", "LaneSet": "lane_set_type", "Lane": "lane_type",
    "MessageFlow": "message_flow_type", "Participant": "participant_type", "SequenceFlow": "sequence_flow_type",
    "Activity": "activities.activity_type", "SubProcess": "activities.subprocess_type", "Task": "activities.task_type",
    "CatchEvent": "events.catch_event_type", "EndEvent": "events.end_event_type", "Event": "events.event_type",
    "IntermediateCatchEvent": "events.intermediate_catch_event_type",
    "IntermediateThrowEvent": "events.intermediate_throw_event_type", "StartEvent": "events.start_event_type",
    "ThrowEvent": "events.throw_event_type", "ExclusiveGateway": "gateways.exclusive_gateway_type",
    "Gateway": "gateways.gateway_type", "InclusiveGateway": "gateways.inclusive_gateway_type",
    "ParallelGateway": "gateways.parallel_gateway_type", "CallableElement": "root_element.callable_element_type",
    "EventDefinition": "root_element.event_definition_type", "Process": "root_element.process_type",
    "RootElement": "root_element.root_element_type",
}
PARENT = {
    "FlowElement": "BaseElement", "FlowNode": "FlowElement", "LaneSet": "BaseElement", "Lane": "BaseElement",
    "MessageFlow": "BaseElement", "Participant": "BaseElement", "SequenceFlow": "FlowElement", "Activity": "FlowNode",
    "SubProcess": "Activity", "Task": "Activity", "Event": "FlowNode", "CatchEvent": "Event", "ThrowEvent": "Event",
    "EndEvent": "ThrowEvent", "IntermediateThrowEvent": "ThrowEvent", "IntermediateCatchEvent": "CatchEvent",
    "StartEvent": "CatchEvent", "Gateway": "FlowNode", "ExclusiveGateway": "Gateway", "InclusiveGateway": "Gateway",
    "ParallelGateway": "Gateway", "RootElement": "BaseElement", "CallableElement": "RootElement",
    "EventDefinition": "RootElement", "Process": "CallableElement",
}
DIRS = ["Unspecified", "Converging", "Diverging", "Mixed"]
PTYPES = ["None", "Public", "Private"]
# attribute -> (getter, setter, kind, value after construction)
OWN = {
    "BaseElement": {"id": ("get_id", "set_id", "str?", None)},
    "ConditionExpression": {"condition": ("get_condition", "set_condition", "str", None)},
    "FlowElement": {"name": ("get_name", "set_name", "str?", None)},
    "FlowNode": {"incoming": ("get_incoming", "set_incoming", "list:str", []),
                 "outgoing": ("get_outgoing", "set_outgoing", "list:str", [])},
    "LaneSet": {"name": ("get_name", "set_name", "str?", None), "lanes": ("get_lane_list", "set_lane_list", "list:Lane",
                                                                         [])},
    "Lane": {"name": ("get_name", "set_name", "str?", None),
             "refs": ("get_flow_node_ref_list", "set_flow_node_ref_list", "list:str", []),
             "child": ("get_child_lane_set", "set_child_lane_set", "LaneSet?", None)},
    "MessageFlow": {"name": ("get_name", "set_name", "str?", None), "source": ("get_source_ref", "set_source_ref", "str",
                                                                             "@0"),
                    "target": ("get_target_ref", "set_target_ref", "str", "@1"),
                    "message": ("get_message_ref", "set_message_ref", "str?", None)},
    "Participant": {"name": ("get_name", "set_name", "str?", None),
                    "process": ("get_process_ref", "set_process_ref", "str?", None)},
    "SequenceFlow": {"source": ("get_source_ref", "set_source_ref", "str", "@0"),
                     "target": ("get_target_ref", "set_target_ref", "str", "@1"),
                     "immediate": ("is_immediate", "set_is_immediate", "bool?", None),
                     "condition": ("get_condition_expression", "set_condition_expression", "ConditionExpression?", None)},
    "Activity": {"default": ("get_default", "set_default", "str?", None)},
    "SubProcess": {"triggered": ("triggered_by_event", "set_triggered_by_event", "bool", False),
                   "lanesets": ("get_lane_set_list", "set_lane_set_list", "list:LaneSet", []),
                   "elements": ("get_flow_element_list", "set_flow_element_list", "list:FlowElement", [])},
    "CatchEvent": {"parallel": ("parallel_multiple", "set_parallel_multiple", "bool", False),
                   "defs": ("get_event_definition_list", "set_event_definition_list", "list:EventDefinition", [])},
    "ThrowEvent": {"defs": ("get_event_definition_list", "set_event_definition_list", "list:EventDefinition", [])},
    "ExclusiveGateway": {"default": ("get_default", "set_default", "str?", None)},
    "InclusiveGateway": {"default": ("get_default", "set_default", "str?", None)},
    "Gateway": {"direction": ("get_gateway_direction", "set_gateway_direction", "dir", "Unspecified")},
    "CallableElement": {"name": ("get_name", "set_name", "str?", None)},
    "Process": {"ptype": ("get_process_type", "set_process_type", "ptype", "None"),
                "closed": ("is_closed", "set_is_closed", "bool", False),
                "executable": ("is_executable", "set_is_executable", "bool", False),
                "lanesets": ("get_lane_set_list", "set_lane_set_list", "list:LaneSet", []),
                "elements": ("get_flow_element_list", "set_flow_element_list", "list:FlowElement", [])},
}
CLASSES = sorted(MODULE)


def attrs(cls):
    out = {}
    c = cls
    while c:
        for k, v in OWN.get(c, {}).items():
            out.setdefault(k, v)
        c = PARENT.get(c)
    return out


def isa(c, base):
    while c:
        if c == base:
            return True
        c = PARENT.get(c)
    return False


def make(ctx, cls, key="o"):
    k = getattr(ctx.mod(B + MODULE[cls]), cls)
    if cls in ("MessageFlow", "SequenceFlow"):
        return k(ctx.text(key + ".src"), ctx.text(key + ".tgt"))
    return k()


OBJ = ["Lane", "LaneSet", "Task", "SequenceFlow", "FlowElement", "EventDefinition", "ConditionExpression", "BaseElement",
       "StartEvent", "MessageFlow", "SubProcess"]
SCALARS = ["none", "text", "true", "false", "int0", "int1", "int5", "float", "bytes", "dict", "set", "class", "float0",
           "nobytes", "nodict", "noset"]
ELEMS = ["text", "none", "int1", "true", "list", "bytes"] + OBJ
KINDS = SCALARS + ["obj:" + o for o in OBJ] + ["list:"] + ["list:" + e for e in ELEMS] + ["tuple:", "tuple:text"] + \
    ["tuple:" + o for o in OBJ] + ["notext", "first:none", "first:text", "first:list"] + \
    ["mix2:" + e for e in ELEMS] + ["mix3:" + e for e in ELEMS] + ["same:"] + \
    ["at%d:%s" % (i, e) for i in (0, 3, 8) for e in ("none", "int1", "text", "list")]


def good_elem(want):
    return {"str": "text", "FlowElement": "Task"}.get(want, want)


def scalar(ctx, key, k):
    if k == "none":
        return None
    if k == "text":
        return ctx.text(key)
    if k == "class":
        return str
    if k in OBJ:
        return make(ctx, k, key)
    return {"true": True, "false": False, "int0": 0, "int1": 1, "int5": 5, "float": 1.5, "bytes": b"a", "dict": {"a": "b"},
            "set": {"a"}, "list": ["a"], "float0": 0.0, "nobytes": b"", "nodict": {}, "noset": set(), "notext": ""}[k]


def value(ctx, key, kind, spec):
    """-> (value, is it of the documented kind, error class when it is not)"""
    opt = spec.endswith("?")
    base = spec.rstrip("?")
    want = base[5:] if base.startswith("list:") else None

    def elem_ok(e):
        if want == "str":
            return e == "text"
        return e in MODULE and isa(e, want)
    if kind.startswith("list:"):
        e = kind[5:]
        if not e:
            return [], want is not None
        return [scalar(ctx, key, e)], want is not None and elem_ok(e)
    if kind.startswith("tuple:"):
        return (scalar(ctx, key, kind[6:]),) if kind[6:] else (), False
    if kind.startswith("first:"):
        g = good_elem(want) if want else "text"
        e = kind[6:]
        return [scalar(ctx, key, e), scalar(ctx, key + ".1", g), scalar(ctx, key + ".2", g)], want is not None and elem_ok(e)
    if kind.startswith("same:"):
        v = scalar(ctx, key, good_elem(want) if want else "text")
        return [v, v], want is not None
    if kind.startswith("at"):
        # one of nine elements
        g = good_elem(want) if want else "text"
        vals = [scalar(ctx, "%s.%d" % (key, i), g) for i in range(9)]
        vals[int(kind[2])] = scalar(ctx, key, kind[4:])
        return vals, want is not None and elem_ok(kind[4:])
    if kind.startswith("mix"):
        n, e = int(kind[3]), kind[5:]
        g = good_elem(want) if want else "text"
        vals = [scalar(ctx, "%s.%d" % (key, i), g) for i in range(n - 1)] + [scalar(ctx, key, e)]
        if n == 3:
            vals = [vals[0], vals[2], vals[1]]
        return vals, want is not None and elem_ok(e)
    k = kind[4:] if kind.startswith("obj:") else kind
    v = scalar(ctx, key, k)
    if v is None:
        return v, opt
    if base in ("str", "dir", "ptype"):
        return v, k in ("text", "notext")
    if base == "bool":
        return v, k in ("true", "false")
    return v, k in MODULE and isa(k, base)


def same(ctx, got, want, what):
    if isinstance(want, str):
        ctx.eq(got, want, what)
    elif isinstance(want, list):
        ctx.ok(isinstance(got, list) and len(got) == len(want), what)
        for g, w in zip(got, want):
            same(ctx, g, w, what)
    elif want is None or isinstance(want, bool):
        ctx.ok(got is want, what)
    else:
        ctx.ok(got is want or got == want, what)


def state(obj, ats):
    out = {}
    for k, (g, _, _, _) in ats.items():
        v = getattr(obj, g)()
        out[k] = list(v) if isinstance(v, list) else v
    return out


def compare(ctx, obj, ats, want, what):
    for k, (g, _, _, _) in ats.items():
        same(ctx, getattr(obj, g)(), want[k], "%s: attribute %s" % (what, k))


def allowed(ctx, spec, v):
    if spec == "dir":
        return any(v == d for d in DIRS)
    if spec == "ptype":
        return any(v == d for d in PTYPES)
    return True


def attempt(ctx, obj, cls, ats, cur, attr, kind, key):
    """one call of a setter; cur: the values the object has to hold; updated"""
    g, s, spec, _ = ats[attr]
    v, ok = value(ctx, key, kind, spec)
    exc = None
    try:
        getattr(obj, s)(v)
    except (TypeError, ValueError) as e:
        exc = e
    what = "%s.%s(%s)" % (cls, s, kind)
    if ok and allowed(ctx, spec, v):
        ctx.ok(exc is None, what + " is accepted")
        cur[attr] = list(v) if isinstance(v, list) else v
        ctx.reach("accepted")
    elif ok:
        ctx.ok(isinstance(exc, ValueError), what + ": a text outside the documented values is a value error")
        ctx.reach("value error")
    else:
        ctx.ok(isinstance(exc, TypeError), what + " is a type error")
        ctx.reach("type error")
    compare(ctx, obj, ats, cur, "after " + what)


def fresh(ctx, cls, ats, obj, what, key="o"):
    want = {}
    for k, (_, _, _, d) in ats.items():
        want[k] = ctx.text(key + (".src" if d == "@0" else ".tgt")) if d in ("@0", "@1") else d
    compare(ctx, obj, ats, want, what)
    return want


def setters(ctx):
    """every class, every attribute, every kind of value"""
    lo, hi = ctx.p("classes")
    cls = CLASSES[lo:hi][ctx.pick("class", len(CLASSES[lo:hi]))]
    ats = attrs(cls)
    names = sorted(ats)
    attr = names[ctx.pick("attr", len(names))]
    kind = KINDS[ctx.pick("kind", len(KINDS))]
    other = make(ctx, cls, "p")
    obj = make(ctx, cls)
    w2 = fresh(ctx, cls, ats, other, "new " + cls, "p")
    cur = fresh(ctx, cls, ats, obj, "new " + cls)
    attempt(ctx, obj, cls, ats, cur, attr, kind, "v")
    compare(ctx, other, ats, w2, "another object of class " + cls)


GOODK = {"str?": ["text", "none"], "str": ["text"], "bool": ["true", "false"], "bool?": ["true", "none"],
         "dir": ["text"], "ptype": ["text"], "LaneSet?": ["obj:LaneSet", "none"], "list:str": ["list:text", "mix2:text"],
         "list:Lane": ["list:Lane", "list:"], "list:LaneSet": ["list:LaneSet", "list:"],
         "list:FlowElement": ["mix2:SequenceFlow", "list:"], "list:EventDefinition": ["list:EventDefinition", "list:"],
         "ConditionExpression?": ["obj:ConditionExpression", "none"]}
BADK = ["int5", "list:none", "mix2:int1", "obj:ConditionExpression", "obj:Lane"]


def history(ctx):
    """two calls on one object: what the first stored survives a rejected second and other attributes"""
    own = [c for c in CLASSES if c in OWN or c in ("Task", "StartEvent", "EndEvent", "ParallelGateway")]
    lo, hi = ctx.p("classes")
    own = own[lo:hi]
    cls = own[ctx.pick("class", len(own))]
    ats = attrs(cls)
    names = sorted(ats)
    a0 = names[ctx.pick("attr0", len(names))]
    a1 = names[ctx.pick("attr1", len(names))]
    obj = make(ctx, cls)
    cur = fresh(ctx, cls, ats, obj, "new " + cls)
    g0 = GOODK[ats[a0][2]]
    attempt(ctx, obj, cls, ats, cur, a0, g0[ctx.pick("good0", len(g0))], "v0")
    k1 = GOODK[ats[a1][2]] + BADK
    attempt(ctx, obj, cls, ats, cur, a1, k1[ctx.pick("kind1", len(k1))], "v1")
    third = make(ctx, cls, "q")
    fresh(ctx, cls, ats, third, "an object made after others were changed", "q")


def constructors(ctx):
    """the two constructors with arguments"""
    cls = ["MessageFlow", "SequenceFlow"][ctx.pick("class", 2)]
    ks = [SCALARS + ["obj:Lane", "list:text"]][0]
    k0, k1 = ks[ctx.pick("kind0", len(ks))], ks[ctx.pick("kind1", len(ks))]
    v0, ok0 = value(ctx, "o.src", k0, "str")
    v1, ok1 = value(ctx, "o.tgt", k1, "str")
    k = getattr(ctx.mod(B + MODULE[cls]), cls)
    try:
        o = k(v0, v1)
    except TypeError:
        ctx.ok(not (ok0 and ok1), "%s(%s, %s) is accepted" % (cls, k0, k1))
        ctx.reach("type error")
        return
    ctx.ok(ok0 and ok1, "%s(%s, %s) is a type error" % (cls, k0, k1))
    fresh(ctx, cls, attrs(cls), o, "new " + cls)
    ctx.reach("accepted")


def hierarchy(ctx):
    """every class is importable and a kind of its documented base"""
    cls = CLASSES[ctx.pick("class", len(CLASSES))]
    o = make(ctx, cls)
    c = PARENT.get(cls)
    while c:
        ctx.ok(isinstance(o, getattr(ctx.mod(B + MODULE[c]), c)), "%s is a %s" % (cls, c))
        c = PARENT.get(c)
    ctx.reach(cls)


def _parts(n, k):
    return [(n * i // k, n * (i + 1) // k) for i in range(k)]


HARNESSES = [
    H("setters%d" % i, setters, "classes %s: every attribute (inherited ones too) with %d kinds of values, texts symbolic"
      % (", ".join(CLASSES[a:b]), len(KINDS)), {"classes": (a, b)}, reach=["accepted", "type error"], quick_s=100)
    for i, (a, b) in enumerate(_parts(len(CLASSES), 4))
] + [
    H("history%d" % i, history, "two setter calls on one object, every pair of attributes, valid then valid or invalid",
      {"classes": c}, reach=["accepted", "type error"], quick_s=100) for i, c in enumerate(_parts(22, 3))
] + [
    H("constructors", constructors, "constructors of the flow classes, every pair of value kinds", {},
      reach=["accepted", "type error"]),
    H("hierarchy", hierarchy, "all 27 classes", {}, reach=CLASSES),
]
ASSUMPTIONS = ["value kinds: " + ", ".join(KINDS)]
