# coding=utf-8
"""Ways of writing the same thing in Python. harness/c00.py decides that the engine follows each of them: every
outcome listed there is reached, every outcome is right, and nothing was pinned."""
import collections
import copy
import functools
import itertools
import operator


# each function gets texts a and b and returns one of a few outcomes

def join_gen(a, b):
    return "same" if "".join(x for x in [a, b]) == a + b and "-".join(map(str, (a, b))) == a + "-" + b and \
        "x".join([a]) == a and "".join([]) == "" else "differs"


def join_then_test(a, b):
    return "yes" if "".join(x for x in (a,)) == "yes" else "no"


def strip_map(a, b):
    return "hit" if "k" in map(str.strip, [a]) else "miss"


def strip_list(a, b):
    return "hit" if [x.strip() for x in [a]] == ["k"] else "miss"


def unbound_lower(a, b):
    return "hit" if str.lower(a) == "k" else "miss"


def match_stmt(a, b):
    if a == "task":
        return "task"
    elif a in ("userTask", "manualTask"):
        return "special"
    return "other"


def dispatch_dict(a, b):
    table = {"task": "task", "userTask": "special", "manualTask": "special"}
    return table.get(a, "other")


def dispatch_dict_sub(a, b):
    table = {"task": "task", "userTask": "special"}
    try:
        return table[a]
    except KeyError:
        return "other"


def dispatch_in_dict(a, b):
    table = {"task": "task", "userTask": "special"}
    if a in table:
        return table[a]
    return "other"


def dispatch_keys(a, b):
    table = {"task": "task"}
    return "task" if a in table.keys() else "other"


def dispatch_values(a, b):
    table = {"x": "task"}
    return "task" if a in table.values() else "other"


def frozen(a, b):
    return "task" if a in frozenset(["task", "userTask"]) else "other"


def set_literal(a, b):
    return "task" if a in {"task", "userTask"} else "other"


def set_ops(a, b):
    s = {a} & {"task", "userTask"}
    return "task" if s else "other"


def set_diff(a, b):
    s = {a, b} - {"task"}
    return str(len(s))


def set_union_len(a, b):
    return str(len({a} | {b}))


def set_xor(a, b):
    return str(len({a} ^ {b}))


def set_methods(a, b):
    return "sub" if {a}.issubset({"task", "userTask"}) else "disj" if {a}.isdisjoint({b}) else "meet"


def set_cmp(a, b):
    return "sub" if {a} <= {"task", b} else "no"


def set_comp(a, b):
    return str(len({x for x in (a, b)}))


def set_from_gen(a, b):
    return str(len(set(x for x in (a, b))))


def set_update(a, b):
    s = set()
    s.update([a, b])
    return str(len(s))


def set_inplace(a, b):
    s = {a}
    s |= {b}
    return str(len(s))


def dict_comp(a, b):
    return str(len({x: 1 for x in (a, b)}))


def dict_from_pairs(a, b):
    return str(len(dict([(a, 1), (b, 2)])))


def dict_from_zip(a, b):
    return str(len(dict(zip((a, b), (1, 2)))))


def dict_fromkeys(a, b):
    return str(len(dict.fromkeys([a, b])))


def dict_update(a, b):
    d = {a: 1}
    d.update({b: 2})
    return str(len(d)) + str(d[a])


def dict_update_const(a, b):
    d = {"task": 1}
    d.update({a: 2})
    return str(len(d)) + str(d["task"])


def dict_merge(a, b):
    d = {**{"task": 1}, **{a: 2}}
    return str(len(d)) + str(d["task"])


def dict_or(a, b):
    d = {"task": 1} | {a: 2}
    return str(len(d)) + str(d["task"])


def dict_setdefault(a, b):
    d = {}
    d.setdefault(a, []).append(1)
    d.setdefault(b, []).append(2)
    return str(len(d))


def default_dict(a, b):
    d = collections.defaultdict(list)
    for x in (a, b, "task"):
        d[x].append(x)
    return str(len(d))


def default_dict_int(a, b):
    d = collections.defaultdict(int)
    for x in (a, b):
        d[x] += 1
    return str(max(d.values()))


def ordered_dict(a, b):
    d = collections.OrderedDict()
    d["task"] = 0
    d[a] = 1
    d[b] = 2
    return "".join(str(v) for v in d.values())


def counter(a, b):
    c = collections.Counter([a, b])
    return str(c.most_common(1)[0][1])


def counter_gen(a, b):
    c = collections.Counter(x for x in (a, b))
    return str(max(c.values()))


def dict_pop(a, b):
    d = {"task": 1, a: 2}
    return str(d.pop(b, 0))


def dict_del(a, b):
    d = {a: 1, b: 2}
    del d[a]
    return str(len(d))


def dict_literal(a, b):
    d = {"task": 1, a: 2}
    return str(d["task"])


def nested_dict(a, b):
    d = {a: {b: 1}}
    return "hit" if b in d.get("task", {}) else "miss"


def list_index(a, b):
    try:
        return str(["x", "task", a].index(b))
    except ValueError:
        return "none"


def list_count(a, b):
    return str([a, "task"].count("task"))


def list_remove(a, b):
    xs = [a, "task"]
    xs.remove("task")
    return str(len(xs)) + ("c" if xs == ["task"] else "d")


def list_eq(a, b):
    return "same" if [a, "x"] == [b, "x"] else "differs"


def tuple_eq(a, b):
    return "same" if (a, 1) == (b, 1) else "differs"


def tuple_in(a, b):
    return "in" if (a, b) in [("x", "y"), ("y", "x")] else "out"


def tuple_key(a, b):
    d = {("x", "y"): 1}
    return "in" if (a, b) in d else "out"


def tuple_key_get(a, b):
    d = {(a, b): 1}
    return "in" if d.get(("x", "y")) else "out"


def tuple_set(a, b):
    s = set()
    s.add((a, b))
    s.add((b, a))
    return str(len(s))


def dict_eq(a, b):
    return "same" if {"k": a} == {"k": b} else "differs"


def any_gen(a, b):
    return "any" if any(x == "task" for x in (a, b)) else "none"


def all_gen(a, b):
    return "all" if all(x == "task" for x in (a, b)) else "some"


def next_gen(a, b):
    return next((n for n, x in (("first", a), ("second", b)) if x == "task"), "none")


def filter_lambda(a, b):
    return str(len(list(filter(lambda x: x == "task", (a, b)))))


def filter_none(a, b):
    return str(len(list(filter(None, (a, b)))))


def sum_gen(a, b):
    return str(sum(1 for x in (a, b) if x == "task"))


def sum_bool(a, b):
    return str(sum(x == "task" for x in (a, b)))


def reduce_fn(a, b):
    return str(functools.reduce(lambda n, x: n + (x == "task"), (a, b), 0))


def groupby(a, b):
    return str(len(list(itertools.groupby([a, b]))))


def chain(a, b):
    return "in" if "task" in itertools.chain([a], [b]) else "out"


def sort_two(a, b):
    xs = sorted([a, b])
    return "kept" if xs[0] is a else "swapped"


def sort_key(a, b):
    xs = sorted([(1, a), (0, b)], key=lambda t: t[1])
    return str(xs[0][0])


def sort_itemgetter(a, b):
    xs = sorted([(1, a), (0, b)], key=operator.itemgetter(1))
    return str(xs[0][0])


def sort_inplace(a, b):
    xs = [a, b]
    xs.sort(reverse=True)
    return "kept" if xs[0] is a else "swapped"


def max_min(a, b):
    return "a" if max(a, b) is a else "b"


def bool_text(a, b):
    return "set" if a else "empty"


def not_text(a, b):
    return "empty" if not a else "set"


def or_default(a, b):
    return "dflt" if (a or "task") == "task" else "own"


def cond_and(a, b):
    x = a and b
    return "set" if x else "empty"


def len_text(a, b):
    return "empty" if len(a) == 0 else "one" if len(a) == 1 else "more"


def percent(a, b):
    return "hit" if "%s:%s" % (a, b) == "x:y" else "miss"


def percent_one(a, b):
    return "hit" if "id_%s" % a == "id_x" else "miss"


def format_call(a, b):
    return "hit" if "{}:{}".format(a, b) == "x:y" else "miss"


def format_named(a, b):
    return "hit" if "{p}:{q}".format(p=a, q=b) == "x:y" else "miss"


def fstring(a, b):
    return "hit" if f"{a}:{b}" == "x:y" else "miss"


def concat_aug(a, b):
    s = a
    s += ":"
    s += b
    return "hit" if s == "x:y" else "miss"


def prefix(a, b):
    return "pre" if a.startswith("flow") else "post" if a.endswith("flow") else "no"


def prefix_tuple(a, b):
    return "pre" if a.startswith(("flow", "gate")) else "no"


def contains(a, b):
    return "has" if "ate" in a else "no"


def find(a, b):
    return "has" if a.find("ate") >= 0 else "no"


def find_ne(a, b):
    return "no" if a.find("ate") == -1 else "has"


def index_char(a, b):
    return "has" if a[:1] == "g" else "no"


def slice_end(a, b):
    return "has" if a[-4:] == "flow" else "no"


def slice_drop(a, b):
    return "has" if a.startswith("g:") and a[2:] == "x" else "no"


def partition(a, b):
    return "has" if ("p:" + a).partition(":")[2] == "x" else "no"


def rpartition(a, b):
    return "has" if ("p:" + a).rpartition(":")[2] == "x" else "no"


def split_last(a, b):
    return "has" if ("p:" + a).split(":")[-1] == "x" else "no"


def split_once(a, b):
    return "has" if ("p:" + a).split(":", 1)[1] == "x" else "no"


def replace_const(a, b):
    return "has" if a.replace("q", "") == "x" else "no"


def is_none(a, b):
    return "none" if a is None else "text"


def try_key(a, b):
    d = {"task": 1}
    try:
        d[a] += 1
    except KeyError:
        return "none"
    return str(d["task"])


def get_chain(a, b):
    return str({"task": {"x": 1}}.get(a, {}).get(b, 0))


def walrus(a, b):
    d = {"task": "t"}
    if (x := d.get(a)) is not None:
        return x
    return "none"


def ternary_cmp(a, b):
    return "same" if a == b else "differs"


def chained_cmp(a, b):
    return "same" if a == b == "task" else "differs"


def ne_op(a, b):
    return "differs" if a != b else "same"


def copies(a, b):
    d = copy.deepcopy({"k": [a]})
    return "same" if d["k"][0] == b else "differs"


def star_args(a, b):
    def f(*xs, **kw):
        return xs[0] == kw["k"]
    return "same" if f(*[a], **{"k": b}) else "differs"


def enumerate_zip(a, b):
    for i, (x, y) in enumerate(zip([a, b], ["x", "y"])):
        if x != y:
            return str(i)
    return "all"


def closures(a, b):
    is_task = functools.partial(operator.eq, "task")
    return "task" if is_task(a) else "other"


def lambda_map(a, b):
    return "".join(map(lambda x: "1" if x == "task" else "0", [a, b]))


def generator_fn(a, b):
    def gen():
        for x in (a, b):
            if x == "task":
                yield 1
    return str(len(list(gen())))


def for_else(a, b):
    for x in (a, b):
        if x == "task":
            break
    else:
        return "none"
    return "found"


def while_pop(a, b):
    xs = [a, b]
    n = 0
    while xs:
        if xs.pop() == "task":
            n += 1
    return str(n)


def deque_use(a, b):
    q = collections.deque([a, b])
    return "in" if "task" in q and q.popleft() == "task" else "out"


def named_tuple(a, b):
    P = collections.namedtuple("P", "x y")
    return "same" if P(a, "1") == P(b, "1") else "differs"


def attr_obj(a, b):
    class C(object):
        pass
    c = C()
    setattr(c, "k", a)
    return "task" if getattr(c, "k") == "task" else "other"


def int_map(a, b):
    return "two" if sum(map(len, [[a], [b]])) == 2 else "no"


def list_of_lists(a, b):
    return "in" if [a] in [["task"], ["x"]] else "out"


def removeprefix(a, b):
    return "has" if a.removeprefix("p:") == "x" else "no"


def casefold_cmp(a, b):
    return "has" if a.lower() == "x" else "no"


def isspace_test(a, b):
    return "blank" if not a.strip() else "text"


def last_elem(a, b):
    *rest, last = [a, b]
    return "task" if last == "task" else "other"


def index_gen(a, b):
    xs = [i for i, x in enumerate([a, b]) if x == "task"]
    return str(xs)


def dict_items_filter(a, b):
    d = {"p": a, "q": b}
    return "".join(k for k, v in d.items() if v == "task")


def dict_invert(a, b):
    d = {v: k for k, v in {"p": a, "q": b}.items()}
    return d.get("task", "none")


def exists_pairs(a, b):
    return str(len([1 for x, y in itertools.combinations([a, b, "task"], 2) if x == y]))


def printing(a, b):
    print(a, end="")
    return "task" if a == "task" else "other"


def exc_text(a, b):
    try:
        raise ValueError("bad " + a)
    except ValueError as e:
        return "hit" if str(e) == "bad x" else "miss"


def set_display(a, b):
    return str(len({a, "task"}))


def set_aug_const(a, b):
    s = {"task"}
    s |= {a}
    return str(len(s))


def set_sub_aug(a, b):
    s = {"task", "x"}
    s -= {a}
    return str(len(s))


def dict_comp_const(a, b):
    return str(len({x: 1 for x in (a, "task")}))


def join_has(a, b):
    s = "".join(c for c in [a, b] if c)
    return "yes" if s == "xy" else "no"


def len_join(a, b):
    return "empty" if not "".join(x for x in [a]) else "some"


def strip_ident(a, b):
    return "hit" if a.strip() == "x" and b.strip(":") == "y" else "miss"


def map_strip_join(a, b):
    return "hit" if ",".join(map(str.strip, [a, "y"])) == "x,y" else "miss"


def op_contains(a, b):
    return "in" if operator.contains({"task": 1}, a) else "out"


def op_getitem(a, b):
    try:
        return operator.getitem({"task": "t"}, a)
    except KeyError:
        return "none"


def itemgetter_dict(a, b):
    return "t" if operator.itemgetter("k")({"k": a}) == "task" else "n"


def max_key_len(a, b):
    return "a" if max([a, "xx"], key=len) is a else "c"


def min_default(a, b):
    return str(min((i for i, x in enumerate((a, b)) if x == "task"), default=9))


def setdiff_method(a, b):
    return str(len({a, b}.difference(["task"])))


def inter_method(a, b):
    return "yes" if {"task", "x"}.intersection([a, b]) else "no"


def union_method(a, b):
    return str(len(set().union([a], [b])))


def dict_sub_dict(a, b):
    return "yes" if {"k": a}.items() <= {"k": "task", "m": "x"}.items() else "no"


def keys_diff(a, b):
    return str(len({"task": 1, "x": 2}.keys() - {a}))


def list_filter_none(a, b):
    return str(len([x for x in [a, b, None] if x]))


def rsplit_one(a, b):
    return "has" if (a + ":x").rsplit(":", 1)[0] == "p" else "no"


def split_len(a, b):
    return "one" if len(a.split(":")) == 1 else "more"


def sorted_str_key(a, b):
    return "a" if sorted([a, "m"], key=str)[0] is a else "m"


def match_case(a, b):
    match a:
        case "task" | "userTask":
            return "task"
        case _ if a == b:
            return "same"
        case _:
            return "other"


def match_mapping(a, b):
    match {"k": a}:
        case {"k": "task"}:
            return "task"
        case _:
            return "other"


def lookups(a, b):
    seen = []
    for x in (a, b):
        if x not in seen:
            seen.append(x)
    return str(len(seen))


def string_mult(a, b):
    return "hit" if a * 2 == "xx" else "miss"


def zip_dict(a, b):
    return "hit" if dict(zip(["p", "q"], [a, b])) == {"p": "x", "q": "y"} else "miss"


def ordered_pairs(a, b):
    return "le" if (a, 1) <= (b, 1) else "gt"


def all_equal(a, b):
    return "yes" if len({a, b, "task"}) == 1 else "no"


def rev_loop(a, b):
    for i in reversed(range(2)):
        if [a, b][i] == "task":
            return str(i)
    return "none"


def exc_key(a, b):
    try:
        {"task": 1}[a]
    except KeyError as e:
        return "miss" if e.args[0] == a else "odd"
    return "hit"


def default_get(a, b):
    d = collections.defaultdict(lambda: "none", {"task": "t"})
    return d[a]


def chain_map(a, b):
    return "in" if a in collections.ChainMap({"x": 1}, {"task": 2}) else "out"


def ord_char(a, b):
    return "yes" if a[:1].isdigit() else "no"


def join_sep_sym(a, b):
    return "hit" if a.join(["p", "q"]) == "pxq" else "miss"


def set_inclusion(a, b):
    s = {a, b}
    if s <= {"x", "y"}:
        return "all" if s >= {"x", "y"} else "some"
    if s > {"task"}:
        return "task"
    return "more" if {"k"} < s else "other"


def set_methods(a, b):
    if set([a, b]).issubset(["x", "y"]):
        return "sub"
    if {a, "x"}.issuperset({"x", "y"}):
        return "super"
    return "disjoint" if {a, b}.isdisjoint({"k", "x", "y"}) else "other"


def set_lower(a, b):
    s = {c.strip().lower() for c in (a, b)}
    if s == {"x", "k"}:
        return "both"
    return "in" if s <= {"x", "k", "y"} else "has" if "k" in s else "other"


def set_lower_each(a, b):
    return "k" if {c.lower() for c in (a, b)} == {"k"} else "x" if set(map(str.lower, [a, b])) == {"x", "y"} else "other"
