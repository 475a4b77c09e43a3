# coding=utf-8
"""regular expressions of the program under test as constraints: re.match / fullmatch / search on a symbolic text

The pattern is parsed by the standard library's own parser and translated to a z3 regular expression; what cannot be
translated (look-around, back references, ...) pins the text. A match object's groups pin the text as well.
"""
import re

try:
    import re._constants as C
    import re._parser as sre_parse
except ImportError:
    import sre_constants as C
    import sre_parse

import z3

from . import core
from .core import SymStr, char_class, deep_pin, pin, plain, zrange

MAX = 0x2ffff
_sets = {}


class Unsupported(Exception):
    pass


def ranges_re(rs):
    if not rs:
        return z3.Empty(z3.ReSort(z3.StringSort()))
    out = [zrange(chr(a), chr(b)) if a != b else z3.Re(z3.StringVal(core.zesc(chr(a)))) for a, b in rs]
    return out[0] if len(out) == 1 else z3.Union(*out)


def char_set(pattern, flags):
    """all characters the one-character pattern matches (decided by the re module itself)"""
    key = (pattern, flags)
    if key not in _sets:
        m = re.compile(pattern, flags).match
        out, start = [], None
        for o in range(MAX + 2):
            hit = o <= MAX and m(chr(o)) is not None
            if hit and start is None:
                start = o
            elif not hit and start is not None:
                out.append((start, o - 1))
                start = None
        _sets[key] = ranges_re(out)
    return _sets[key]


CAT = {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s", C.CATEGORY_NOT_SPACE: r"\S",
       C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}


def _class(items, flags):
    out = []
    for op, av in items:
        if op is C.NEGATE:
            out.append("^")
        elif op is C.LITERAL:
            out.append(re.escape(chr(av)))
        elif op is C.RANGE:
            out.append(re.escape(chr(av[0])) + "-" + re.escape(chr(av[1])))
        elif op is C.CATEGORY:
            out.append(CAT[av])
        else:
            raise Unsupported(op)
    return char_set("[" + "".join(out) + "]", flags)


def _cat(rs):
    if not rs:
        return z3.Re(z3.StringVal(""))
    return rs[0] if len(rs) == 1 else z3.Concat(*rs)


def translate(items, flags):
    keep = flags & (re.IGNORECASE | re.ASCII | re.DOTALL)
    out = []
    for op, av in items:
        if op is C.LITERAL:
            c = chr(av)
            out.append(char_set(re.escape(c), keep) if keep & re.IGNORECASE else z3.Re(z3.StringVal(core.zesc(c))))
        elif op is C.NOT_LITERAL:
            out.append(char_set("[^" + re.escape(chr(av)) + "]", keep))
        elif op is C.ANY:
            out.append(char_set(".", keep))
        elif op is C.IN:
            out.append(_class(av, keep))
        elif op is C.BRANCH:
            rs = [translate(x, flags) for x in av[1]]
            out.append(rs[0] if len(rs) == 1 else z3.Union(*rs))
        elif op is C.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("flags in a group")
            out.append(translate(av[-1], flags))
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            r = translate(sub, flags)
            if hi is C.MAXREPEAT:
                if lo == 0:
                    out.append(z3.Star(r))
                else:
                    out.append(_cat([r] * (lo - 1) + [z3.Plus(r)]))
            elif hi == 0:
                pass
            else:
                out.append(z3.Option(r) if (lo, hi) == (0, 1) else z3.Loop(r, lo, hi))
        else:
            raise Unsupported(op)
    return _cat(out)


def language(pattern, flags, how):
    p = sre_parse.parse(pattern, flags)
    flags = getattr(p, "state", None).flags if hasattr(p, "state") else p.pattern.flags
    items = list(p)
    begin = end = False
    while items and items[0][0] is C.AT and items[0][1] in (C.AT_BEGINNING, C.AT_BEGINNING_STRING) and \
            not flags & re.MULTILINE:
        items.pop(0)
        begin = True
    tail = None
    while items and items[-1][0] is C.AT and items[-1][1] in (C.AT_END, C.AT_END_STRING) and not flags & re.MULTILINE:
        if items[-1][1] is C.AT_END:
            tail = z3.Option(z3.Re(z3.StringVal("\\u{a}")))
        items.pop()
        end = True
    r = [translate(items, flags)]
    if tail is not None:
        r.append(tail)
    if how == "search" and not begin:
        r.insert(0, core._any())
    if not end and how != "fullmatch":
        r.append(core._any())
    return _cat(r)


_langs = {}


class SymMatch(object):
    def __init__(self, run, text):
        self._run = run
        self._text = text
        self._m = None

    def __bool__(self):
        return True

    def _real(self):
        if self._m is None:
            self._m = self._run(pin(self._text))
        return self._m

    def __getattr__(self, n):
        return getattr(self._real(), n)

    def __getitem__(self, k):
        return self._real()[k]


def run(how, pattern, text, flags=0):
    """pattern: text or compiled"""
    rx = re.compile(deep_pin(pattern), flags) if isinstance(pattern, str) else pattern
    f = getattr(rx, how)
    if not isinstance(text, SymStr):
        return f(text)
    key = (rx.pattern, rx.flags, how)
    if key not in _langs:
        try:
            _langs[key] = language(rx.pattern, rx.flags, how)
        except (Unsupported, KeyError):
            _langs[key] = None
    lang = _langs[key]
    if lang is None or any(not isinstance(p, str) and p.kind == "der" for p in text.parts):
        return f(pin(text))
    if core.CUR.branch(z3.InRe(text.z(), lang), f(plain(text)) is not None, text.vars()):
        return SymMatch(f, text)
    return None
