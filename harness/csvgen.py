# coding=utf-8
"""process spreadsheets: block-structured processes as trees, their rows and the control flow they describe

A process is a list of steps; the first is the start event. A step is
  ("n", key, kind)          kind: task, subProcess, end
  ("split", key, branches)  branches: lists of steps, or ("goto", target key) / ("join",): an empty branch that
                            goes on with the step after the split (a goto row)
"""
import re

from symex.api import matches

HEADER = ["Order", "Activity", "Condition", "Who", "Subprocess", "Terminated"]
LETTERS = "abcdefghijklmnopqrstuvwxyz"
COND = ["", "yes", "no", "else"]


def n(key, kind="task"):
    return ("n", key, kind)


def end(key="e"):
    return ("n", key, "end")


def split(key, *branches):
    return ("split", key, list(branches))


GOTO = ("join",)

#: joined: every split has its own join or ends in all branches (what the export can write)
JOINED = {
    "line": [n("a"), n("b"), end()],
    "two": [n("a"), split("x", [n("b")], [n("c")]), n("d"), end()],
    "two_end": [n("a"), split("x", [n("b"), n("b2")], [n("c")]), end()],
    "three": [n("a"), split("x", [n("b")], [n("c")], [n("c2")]), n("d"), end()],
    "ends": [n("a"), split("x", [end("e1")], [n("b"), end("e2")])],
    "one_ends": [n("a"), split("x", [n("b")], [end("e1")], [n("c")]), n("d"), end()],
    "skip": [n("a"), split("x", [n("b")], GOTO), n("d"), end()],
    "skip_first": [n("a"), split("x", GOTO, [n("b")]), n("d"), end()],
    "skip_three": [n("a"), split("x", [n("b")], GOTO, [n("c")]), n("d"), end()],
    "two_splits": [n("a"), split("x", [n("b")], [n("c")]), n("d"), split("y", [n("f")], GOTO), end()],
    "nested": [n("a"), split("x", [n("b"), split("y", [n("c")], [n("d")]), n("f")], [n("g")]), n("h"), end()],
    "nested_b": [n("a"), split("x", [n("g")], [n("b"), split("y", [n("c")], GOTO), n("f")]), n("h"), end()],
    "nested_skip": [n("a"), split("x", [n("b"), split("y", [n("c"), split("z", [n("d")], GOTO), n("f")], GOTO), n("g")],
                                  [n("h")]), n("k"), end()],
    "late_join": [n("a"), split("x", [end("e1")], [end("e2")], [n("b"), end("e3")], [end("e4")], [n("c")], [n("d")]), n("f"),
                  end()],
    "nested_ends": [n("a"), split("x", [n("b"), split("y", [end("e1")], [n("d"), end("e2")])], [end("e3")])],
    "first": [split("x", [n("b")], [n("c")]), n("d"), end()],
    "first_skip": [split("x", [n("b"), n("b2")], GOTO, [n("c")]), n("d"), end()],
    "first_nested": [split("x", [n("b"), split("y", [n("c")], [n("d")]), n("f")], [n("g")]), n("h"), end()],
    "first_ends": [split("x", [end("e1")], [n("b"), end("e2")])],
    "nested3": [n("a"), split("x", [n("b"), split("y", [n("c"), split("z", [n("d")], [n("f")]), n("g")], [n("h")]),
                                    n("i")], [n("j")]), n("k"), end()],
}
#: what only the import has to understand: inner splits merged by the outer join, jumps elsewhere
OTHER = {
    "outer_join": [n("a"), split("x", [n("b"), split("y", [n("c")], [n("d")])], [n("f")]), n("g"), end()],
    "outer_join_skip": [n("a"), split("x", [n("b"), split("y", [n("c"), n("c2")], [n("d")])], GOTO), n("g"), end()],
    "outer_join3": [n("a"), split("x", [n("b"), split("y", [n("c"), split("z", [n("d")], [n("f")])], [n("g")]), n("h")],
                                  [n("i")]), n("j"), end()],
    "first_forward": [split("x", [n("b")], ("goto", "d")), n("c"), n("d"), end()],
    "back": [n("a"), n("b"), split("x", [n("c"), ("goto", "a")], [end()])],
    "back_now": [n("a"), n("b"), split("x", ("goto", "a"), [end()])],
    "forward": [n("a"), split("x", [n("b")], ("goto", "d")), n("c"), n("d"), end()],
    "across": [n("a"), split("x", [n("b"), ("goto", "e2")], [n("c"), n("d")], ("goto", "d")), n("f"), end("e2")],
}
#: more rows than fit in one digit
LONG = {
    "long_line": [n("n%d" % i) for i in range(11)] + [end()],
    "long_branch": [n("a"), split("x", [n("n%d" % i) for i in range(12)], [n("c")]), n("d"), end()],
    "late_split": [n("n%d" % i) for i in range(9)] + [split("x", [n("b"), n("b2")], [n("c")], GOTO), n("d"), end()],
    "five": [n("a"), split("x", *[[n("b%d" % i)] for i in range(5)]), n("d"), end()],
}


def deep(k, ends=False):
    """k nested splits"""
    if not k:
        return [n("in"), n("in2", "subProcess")] + ([end("ein")] if ends else [])
    b = [n("b%d" % k), split("s%d" % k, deep(k - 1, ends), [n("c%d" % k)] + ([end("e%d" % k)] if ends else []))]
    return b if ends else b + [n("d%d" % k)]


def wide(k, key="w"):
    """k branches: one row, two rows, sub-process, end event, task and end event, empty"""
    def br(i):
        a = "%s%d" % (key, i)
        return [[n(a)], [n(a, "subProcess"), n(a + "x")], [end(a)], [n(a), end(a + "e")], GOTO if i == 4 else [n(a), n(a + "y")],
                [n(a, "subProcess")]][i % 6]
    return split(key, *[br(i) for i in range(k)])


#: far more than the small shapes: numbers of three digits, 26 branches, six levels, many splits one after the other
BIG = {
    "hundred": [n("n%d" % i, "subProcess" if i % 7 == 3 else "task") for i in range(103)] + [end()],
    "wide": [n("a"), wide(26), n("d"), n("d2"), end()],
    "wide1": [n("a"), split("x", *[[n("b%d" % i)] for i in range(26)]), n("d"), end()],
    "wide_ends": [n("a"), split("x", *([[end("e%d" % i)] for i in range(24)] + [[n("b")], [n("c")]])), n("d"), end()],
    "deep": [n("a")] + deep(6)[0:] + [n("z"), end()],
    "deep_ends": [n("a")] + deep(5, True),
    "chain": [n("a")] + [x for i in range(12) for x in (n("p%d" % i), wide(2 + i % 5, "s%d_" % i))] + [n("z"), end()],
    "mixed": [n("n%d" % i) for i in range(9)] + [split("x", [n("b%d" % i) for i in range(11)] + [
        split("y", [n("c%d" % i) for i in range(3)], *[[n("d%d" % i)] for i in range(9)]), n("f")], *[
        [n("g%d" % i)] for i in range(7)]), n("h"), end()],
}
SHAPES = dict(JOINED)
SHAPES.update(OTHER)
SHAPES.update(LONG)


SIMPLE = ["n", "nn", "sn", "e", "ne"]


def closed(br):
    """does the branch end?"""
    if isinstance(br, tuple):
        return False
    last = br[-1]
    return last[2] == "end" if last[0] == "n" else last[0] == "split" and all(closed(b) for b in last[2])


def branches(ctx, key, count, inner, one, kinds):
    """the branches of a split: every combination of a task, two tasks, a sub-process and a task, an end event, a task and
    an end event, one empty branch, and (inner[i]) a split in the i-th branch. one: a single branch may go on alone"""
    out = []
    for i in range(count):
        k = "%s%d" % (key, i)
        opts = kinds + ([] if GOTO in out else ["goto"]) + (["split"] if inner and inner[i] else [])
        o = opts[ctx.pick("branch." + k, len(opts))]
        if o == "goto":
            out.append(GOTO)
        elif o == "split":
            bs = branches(ctx, k, 2, None, one, kinds)
            br = [n(k + "p"), split(k + "s", *bs)]
            if not closed(br):
                br.append(n(k + "q", "subProcess"))
                if ctx.p("ended", True) and ctx.flag("ended." + k):
                    br.append(end(k + "z"))
            out.append(br)
        else:
            out.append([n("%s%s%d" % (k, c, j), {"n": "task", "s": "subProcess", "e": "end"}[c]) for j, c in enumerate(o)])
    on = [b for b in out if not closed(b)]
    if len(on) == 1 and not one:
        ctx.skip()
    return out


def generated(ctx, count=2, inner=(True, True), one=False, kinds=None, end_after_skip=False):
    """any process of one split with such branches"""
    bs = branches(ctx, "x", count, inner, one, kinds or SIMPLE)
    steps = [n("a"), split("x", *bs)]
    if all(closed(b) for b in bs):
        return steps
    if (GOTO in bs and not end_after_skip) or ctx.flag("task_after"):
        steps.append(n("d"))
    return steps + [end("z")]


class Row(object):
    def __init__(self, order, key, kind, cond=None, goto=None):
        self.order = order
        self.key = key
        self.kind = kind
        self.cond = cond        # key of the condition: this row begins a branch
        self.goto = goto
        self.name = None


class Sheet(object):
    """rows of a tree and the flows between them: flows[(source, target)] = condition key or None; sources and targets
    are row keys, 'split:'+key and 'join:'+key of the row after the join"""

    def __init__(self, steps, short=True, goto_last=False):
        self.goto_last = goto_last
        self.rows = [Row("0", "start", "start")]
        self.by = {"start": self.rows[0]}
        self.flows = {}
        self.splits = {}
        self.short = short
        self.gotos = []
        self.arrive = {}
        self.merges = {}        # row after a join -> split
        open_ = self._seq(steps, ["start"], "", 1, None)
        assert not open_, "open ends"
        for src, target, cond in self.gotos:
            assert (src, target) not in self.flows and (target, src) not in self.flows
            self.flows[(src, target)] = cond
        self.joins = {}
        for key, (srcs, split_key) in self.arrive.items():
            if len(srcs) == 1:
                self.flows[(srcs[0], key)] = None
            else:
                j = "join:" + key
                self.joins[key] = split_key
                for s in srcs:
                    self.flows[(s, j)] = None
                self.flows[(j, key)] = None

    def _add(self, row):
        self.rows.append(row)
        self.by[row.key] = row
        return row

    def _seq(self, steps, preds, prefix, num, cond):
        """-> keys of the rows whose flow goes on after these steps"""
        skips = []
        split_key = None
        single = len(steps) == 1
        for i, st in enumerate(steps):
            if st[0] == "n":
                first = cond is not None and i == 0
                order = prefix + (str(num) if not (first and single and self.short) else "")
                self._add(Row(order, st[1], st[2], cond if first else None))
                if first:
                    self.flows[(preds[0], st[1])] = cond
                elif preds or skips:
                    if split_key is not None and len(preds) + len(skips) > 1:
                        self.merges[st[1]] = split_key
                    if len(preds) == 1 and split_key is None:
                        self.flows[(preds[0], st[1])] = None
                    elif preds:
                        self.arrive[st[1]] = (list(preds), split_key)
                    for s, c in skips:
                        self.gotos.append((s, st[1], c))
                preds, skips, split_key = ([] if st[2] == "end" else [st[1]]), [], None
                num += 1
            elif st[0] == "goto":
                first = cond is not None and i == 0
                order = prefix + (str(num) if not (first and single and self.short) else "")
                self._add(Row(order, "g:" + prefix, "goto", cond if first else None, st[1]))
                self.gotos.append((preds[0], st[1], cond if first else None))
                preds = []
                num += 1
            else:
                assert len(preds) == 1 and not skips
                _, split_key, branches = st
                s = "split:" + split_key
                self.flows[(preds[0], s)] = None
                self.splits[split_key] = (preds[0], [])
                out = []
                keyed = [("%s%d" % (split_key, k), br) for k, br in enumerate(branches)]
                if self.goto_last:
                    keyed.sort(key=lambda b: isinstance(b[1], tuple))
                for k, (c, br) in enumerate(keyed):
                    self.splits[split_key][1].append(c)
                    p = prefix + str(num) + LETTERS[k]
                    if br == GOTO:
                        self._add(Row(p + ("" if self.short else "1"), "g:" + c, "goto", c,
                                      ("order", prefix + str(num + 1))))
                        skips.append((s, c))
                    elif isinstance(br, tuple):
                        self._add(Row(p + ("" if self.short else "1"), "g:" + c, "goto", c, br[1]))
                        self.gotos.append((s, br[1], c))
                    else:
                        out += self._seq(br, [s], p, 1, c)
                preds = out
                num += 1
        assert not skips
        return preds


def cells(ctx, sheet, conds, names="text"):
    """-> rows of the file. Every name is a symbolic text; conds[key] are the conditions"""
    out = [list(HEADER)]
    for r in sheet.rows:
        if r.kind == "goto":
            t = r.goto[1] if isinstance(r.goto, tuple) else sheet.by[r.goto].order
            act = "goto " + t
        else:
            r.name = act = ctx.text("name." + r.key, names) if names else "N " + r.key
            no_goto(ctx, act)
        out.append([r.order, act, conds[r.cond] if r.cond is not None else "", ctx.text("who." + r.key) if r.key == "a" else "",
                    "yes" if r.kind == "subProcess" else "", "yes" if r.kind == "end" else ""])
    return out


def no_goto(ctx, text):
    """names whose first word is goto are jumps, not names"""
    if matches(text, r"\s*goto\s+\S", re.IGNORECASE):
        ctx.skip()


def conditions(ctx, sheet, free=1):
    """any text as condition of the branches of one split (free=1: whichever, free=n: the first n); -1, -2: any texts but
    the words with a meaning, -2: and every kind of gateway at every split"""
    out = {}
    if free == -2:
        turn = ctx.pick("kinds", 3)
        for i, (_, cs) in enumerate(sheet.splits.values()):
            for j, c in enumerate(cs):
                how = (i + turn) % 3
                out[c] = "" if how == 2 else ("yes", "no", "else")[j] if how == 1 and len(cs) < 4 else \
                    "%d=" % j + ctx.text("cond." + c) + "."
        return out
    at = ctx.pick("free split", len(sheet.splits)) if free == 1 and len(sheet.splits) > 1 else 0
    for i, (key, (_, cs)) in enumerate(sheet.splits.items()):
        for c in cs:
            out[c] = ctx.text("cond." + c) if at <= i < at + free else "if " + c if free >= 0 else \
                "=" + ctx.text("cond." + c) + "."
    return out


def gateway_kind(conds):
    """the documented rule"""
    conds = [plain_strip(c) for c in conds]
    if len(conds) == 2 and (sorted_is(conds, ["no", "yes"]) or conds[0] == "else" or conds[1] == "else"):
        return "exclusiveGateway"
    if all(c == "" for c in conds):
        return "parallelGateway"
    return "inclusiveGateway"


def plain_strip(c):
    return c.strip()


def sorted_is(conds, want):
    return (conds[0] == want[0] and conds[1] == want[1]) or (conds[0] == want[1] and conds[1] == want[0])


def pick_shape(ctx, table, only=None):
    keys = [k for k in table if only is None or k in only]
    return table[keys[ctx.pick("shape", len(keys))]]


def sheet(ctx, table=None):
    """for other properties: any sheet with symbolic names and conditions"""
    s = Sheet(pick_shape(ctx, table or SHAPES), ctx.flag("short"))
    return cells(ctx, s, conditions(ctx, s), None), s
