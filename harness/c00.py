# coding=utf-8
"""self-test of the engine (not a property of the code under test): the ways of writing Python in
selftest/bpmn_python/idioms.py are followed exactly. Run with VERIF_REPO=/verif/selftest"""
import contextlib
import importlib.util
import io
import itertools
import os
import re

from symex.api import H

TITLE = "engine self-test"
VALUES = ["", "task", "userTask", "manualTask", "x", "y", "k", " k ", "K", "X", "\t", "flow", "gateway", "g:x", "p:x", "qx", "q:x",
          "aflow", "flowb", "other", "a", "b", " ", "ab", "bad", "date", "gate"]


HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "selftest", "bpmn_python")


def _names(mod, args):
    with open(os.path.join(HERE, mod + ".py")) as f:
        return re.findall(r"^def (\w+)\(%s\)" % args, f.read(), re.M)


def _outcomes(mod, name, values):
    spec = importlib.util.spec_from_file_location(mod + "_plain", os.path.join(HERE, mod + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    with contextlib.redirect_stdout(io.StringIO()):
        return sorted({getattr(m, name)(a, b) for a, b in itertools.product(values, repeat=2)})


def texts(ctx):
    m = ctx.mod("bpmn_python.idioms")
    a, b = ctx.text("a"), ctx.text("b")
    out = getattr(m, ctx.p("idiom"))(a, b)
    ctx.ok(isinstance(out, str), "outcome")
    ctx.reach(str(out))


def numbers(ctx):
    m = ctx.mod("bpmn_python.numbers_")
    if ctx.p("sort") == "int":
        x, y = ctx.int("x", -20, 20), ctx.int("y", -20, 20)
    else:
        x, y = ctx.real("x"), ctx.real("y")
    out = getattr(m, ctx.p("idiom"))(x, y)
    ctx.ok(isinstance(out, str), "outcome")
    ctx.reach(str(out))


HARNESSES = [H(n, texts, "all texts", {"idiom": n}, reach=_outcomes("idioms", n, VALUES), quick_s=20)
             for n in _names("idioms", "a, b")]
HARNESSES += [H("%s_%s" % (n, s), numbers, "all numbers (ints between -20 and 20)", {"idiom": n, "sort": s},
                reach=_outcomes("numbers_", n, [-4, -3, -1, 0, 1, 2, 3, 4, 5, 6, 10, 11]), quick_s=20)
              for n in _names("numbers_", "x, y") for s in ("int", "real")]
