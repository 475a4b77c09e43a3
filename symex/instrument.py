# coding=utf-8
"""
Loading the code under test, twice: as it is (raw) and instrumented.  Both copies are compiled from the repository's
source files at every run.  The instrumentation rewrites calls, subscripts, membership tests, (in)equality tests,
%-formatting and f-strings into calls of the helpers below; everything else runs natively on symbolic values.
"""
import ast
import builtins
import copy
import hashlib
import importlib.machinery
import importlib.util
import operator
import os
import re
import sys
import types
from collections import Counter

from . import core, resym
from .core import (SymInt, SymReal, SymStr, deep_pin, has_sym, mk, parts_of, pin, plain, sym_format, sym_join,
                   sym_mod, sym_str_contains, sym_text)

REPO = os.environ.get("VERIF_REPO", "/repo")
EXEMPT = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "__sc__"}

FUNCS = {}      # qualified name of an executed function -> number of calls


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.stack = [modname]

    def _h(self, name, *args):
        return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in EXEMPT:
            return node
        return ast.Call(func=ast.Name(id="__sc__", ctx=ast.Load()), args=[node.func] + node.args,
                        keywords=node.keywords)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op = node.ops[0]
        a, b = node.left, node.comparators[0]
        if isinstance(op, ast.In):
            return self._h("__sin__", a, b)
        if isinstance(op, ast.NotIn):
            return ast.UnaryOp(op=ast.Not(), operand=self._h("__sin__", a, b))
        if isinstance(op, ast.Eq):
            return self._h("__seq__", a, b)
        if isinstance(op, ast.NotEq):
            return self._h("__sne__", a, b)
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            name = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
            return self._h("__scmp__", ast.Constant(value=name), a, b)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.slice, ast.Slice) or (isinstance(node.slice, ast.Tuple) and
                                                 any(isinstance(e, ast.Slice) for e in node.slice.elts)):
            return node
        node.value = self._h("__spush__", node.value)
        node.slice = self._h("__spop__", node.slice)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._h("__smod__", node.left, node.right)
        if isinstance(node.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
            name = {ast.BitAnd: "&", ast.BitOr: "|", ast.Sub: "-", ast.BitXor: "^"}[type(node.op)]
            return self._h("__sset__", ast.Constant(value=name), node.left, node.right)
        return node

    def visit_AugAssign(self, node):
        simple = node.target
        while isinstance(simple, ast.Attribute):
            simple = simple.value
        if isinstance(node.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)) and isinstance(simple, ast.Name):
            cur = copy.deepcopy(node.target)
            for n in ast.walk(cur):
                if hasattr(n, "ctx"):
                    n.ctx = ast.Load()
            node.value = self._h("__sarg__", cur, self.visit(node.value))
            return node
        self.generic_visit(node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        items = [ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)]
        return self._h("__sdict__", ast.Tuple(elts=items, ctx=ast.Load()))

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return self._h("__smks__", ast.Tuple(elts=node.elts, ctx=ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self._h("__sdict__", ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                                                     generators=node.generators))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._h("__smks__", ast.GeneratorExp(elt=node.elt, generators=node.generators))

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec is not None else ast.Constant(value="")
                parts.append(self._h("__sfv__", val, ast.Constant(value=v.conversion), spec))
        return self._h("__sfs__", *parts)

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def _func(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        node.body = [self.visit(s) for s in node.body]
        tag = ast.Expr(value=self._h("__sfn__", ast.Constant(value=".".join(self.stack))))
        pos = 1 if node.body and isinstance(node.body[0], ast.Expr) and \
            isinstance(node.body[0].value, ast.Constant) else 0
        node.body.insert(pos, tag)
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node


# ---------------------------------------------------------------------------------------------------------
# loading

SOURCES = {}


class _Loader(importlib.machinery.SourceFileLoader):
    sym = False

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        data = self.get_data(path)
        SOURCES[os.path.relpath(path, REPO)] = hashlib.sha256(data).hexdigest()[:16]
        tree = ast.parse(data, path)
        if self.sym:
            tree = ast.fix_missing_locations(T(fullname).visit(tree))
        return compile(tree, path, "exec", dont_inherit=True)


class _SymLoader(_Loader):
    sym = True


class _Finder(object):
    loader = None

    def find_spec(self, name, path=None, target=None):
        if not _ours(name):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path if path is not None else [REPO])
        if spec is None or spec.origin is None:
            return spec
        if isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = self.loader(spec.loader.name, spec.loader.path)
        return spec


def _ours(name):
    return name == "bpmn_python" or name.startswith("bpmn_python.")


class Mods(object):
    """one copy of the package under test"""

    def __init__(self, sym):
        self.sym = sym
        self.table = {}
        self.finder = _Finder()
        self.finder.loader = _SymLoader if sym else _Loader
        self.saved = None
        self.depth = 0

    def activate(self):
        self.depth += 1
        if self.depth > 1:
            return
        self.saved = {k: v for k, v in sys.modules.items() if _ours(k)}
        for k in self.saved:
            del sys.modules[k]
        sys.modules.update(self.table)
        sys.meta_path.insert(0, self.finder)

    def deactivate(self):
        self.depth -= 1
        if self.depth > 0:
            return
        sys.meta_path.remove(self.finder)
        cur = {k: v for k, v in sys.modules.items() if _ours(k)}
        self.table.update(cur)
        for k in cur:
            del sys.modules[k]
        sys.modules.update(self.saved)
        self.saved = None

    def get(self, name):
        self.activate()
        prev = core.CUR
        core.CUR = None
        try:
            return importlib.import_module(name)
        finally:
            core.CUR = prev
            self.deactivate()


# ---------------------------------------------------------------------------------------------------------
# run-time helpers

def resolve_key(d, k):
    """the key of the mapping/set d that k denotes (comparing symbolically), or k itself"""
    if isinstance(k, SymStr):
        for p in d:
            if p.__class__ is str and k == p:
                return p
        return k
    if k.__class__ is str:
        if k in d:
            return k
        for p in d:
            if p.__class__ is SymStr and p == k:
                return p
        return k
    if isinstance(k, (SymInt, SymReal)):
        return pin(k)
    if k.__class__ is tuple:
        mine = has_sym(k)
        if not mine and k in d:
            return k
        for p in d:
            if p.__class__ is tuple and len(p) == len(k) and (mine or has_sym(p)) and p == k:
                return p
    return k


def sdict(items):
    d = {}
    for it in items:
        if len(it) == 1:
            for k in it[0].keys():
                d[k if core.CUR is None else resolve_key(d, k)] = it[0][k]
        else:
            d[it[0] if core.CUR is None else resolve_key(d, it[0])] = it[1]
    return d


def smks(items):
    if core.CUR is None:
        return set(items)
    items = list(items)
    if _several(items):
        return LazySet(items)
    return set(_canon([], items))


def sarg(cur, v):
    if core.CUR is None:
        return v
    if isinstance(cur, set) and isinstance(v, _SETS):
        return set(_canon(cur, v))
    if isinstance(cur, dict) and isinstance(v, dict):
        return {resolve_key(cur, k): x for k, x in v.items()}
    return v


def _mapping(d):
    return isinstance(d, dict) or (hasattr(d, "keys") and hasattr(d, "__getitem__")) or hasattr(d, "_nodes") \
        or hasattr(d, "_adj") or hasattr(d, "_atlas")


_stack = []


def spush(d):
    if core.CUR is not None:
        _stack.append(d)
    return d


def spop(k):
    if core.CUR is None:
        return k
    d = _stack.pop()
    if isinstance(d, (list, tuple, str)):
        return pin(k) if isinstance(k, SymInt) and not isinstance(d, SymStr) else k
    if isinstance(k, (SymStr, SymInt, SymReal)) or k.__class__ is str or k.__class__ is tuple:
        if _mapping(d) and not hasattr(d, "iloc"):
            try:
                return resolve_key(d, k)
            except TypeError:
                return k
    return k


def sin(x, c):
    if core.CUR is None:
        return x in c
    if isinstance(c, str):
        return sym_str_contains(c, x)
    if c.__class__ is LazySet:
        return x in c
    if isinstance(c, (dict, set, frozenset, type({}.keys()))):
        return resolve_key(c, x) in c
    if isinstance(x, (SymStr, str)) and _mapping(c) and not hasattr(c, "iloc"):
        return resolve_key(c, x) in c
    return x in c


def _canon(base, it):
    out = []
    known = list(base)
    for x in it:
        for y in known:
            if x is y or (isinstance(x, (str, tuple)) and isinstance(y, (str, tuple)) and x == y):
                x = y
                break
        else:
            known.append(x)
        out.append(x)
    return out


class LazySet(set):
    """a set of texts of which several are derived from variables: compared with constants item by item, and only
    where that is not enough are the items compared with each other"""

    def __init__(self, items):
        set.__init__(self)
        self.items = list(items)
        self.forced = False

    def force(self):
        if not self.forced:
            self.forced = True
            set.update(self, _canon([], self.items))
        return self

    def __iter__(self):
        self.force()
        return set.__iter__(self)

    def __len__(self):
        self.force()
        return set.__len__(self)

    def __bool__(self):
        return bool(self.items)

    def __contains__(self, x):
        if not self.forced:
            return any(y == x for y in self.items)
        return resolve_key(list(set.__iter__(self)), x) in list(set.__iter__(self))

    def equals(self, consts):
        left = set(consts)
        for x in self.items:
            for c in consts:
                if x == c:
                    left.discard(c)
                    break
            else:
                return False
        return not left


def _several(items):
    return sum(1 for x in items if core._der(x) is not None) > 1


_SETS = (set, frozenset, type({}.keys()))


def seq(a, b):
    for x, y in ((a, b), (b, a)):
        if x.__class__ is LazySet and not x.forced and isinstance(y, _SETS) and y.__class__ is not LazySet \
                and not has_sym(set(y)):
            return x.equals(y)
    if core.CUR is not None and isinstance(a, _SETS) and isinstance(b, _SETS) and (has_sym(set(a)) or has_sym(set(b))):
        return set(a) == set(_canon(a, b))
    return a == b


def sne(a, b):
    if core.CUR is not None and isinstance(a, _SETS) and isinstance(b, _SETS):
        return not seq(a, b)
    return a != b


_CMP = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}


def scmp(op, a, b):
    """order; between sets: inclusion, members compared symbolically"""
    if core.CUR is not None and isinstance(a, _SETS) and isinstance(b, _SETS):
        if op in (">", ">="):
            a, b, op = b, a, "<" + op[1:]
        if a.__class__ is LazySet and not a.forced and b.__class__ is not LazySet and not has_sym(set(b)):
            return all(any(x == c for c in b) for x in a.items) and (op == "<=" or not a.equals(b))
        if b.__class__ is LazySet and not b.forced and a.__class__ is not LazySet and not has_sym(set(a)):
            return all(c in b for c in a) and (op == "<=" or not b.equals(a))
        if has_sym(set(a)) or has_sym(set(b)):
            b = set(_canon(a, b))
            a = set(a)
    return _CMP[op](a, b)


def sset(op, a, b):
    if core.CUR is not None and isinstance(a, _SETS) and isinstance(b, _SETS) and (has_sym(set(a)) or has_sym(set(b))):
        b = set(_canon(a, b))
        a = set(a)
    if op == "|" and core.CUR is not None and isinstance(a, dict) and isinstance(b, dict):
        return sdict([(a,), (b,)])
    if op == "^":
        return a ^ b
    if op == "&":
        return a & b
    if op == "|":
        return a | b
    return a - b


def smod(a, b):
    if core.CUR is not None and isinstance(a, str):
        return sym_mod(a, b)
    return a % b


def sfv(val, conv, spec):
    if core.CUR is not None and isinstance(val, (SymStr, SymInt, SymReal, core.SymObject)):
        if conv in (-1, 115) and spec == "":
            return sym_text(val)
        val = deep_pin(val)
    if conv == 115:
        val = str(val)
    elif conv == 114:
        val = repr(val)
    elif conv == 97:
        val = ascii(val)
    return format(val, plain(spec))


def sfs(*parts):
    if core.CUR is None:
        return "".join(parts)
    return sym_join("", parts)


def sfn(name):
    if core.CUR is not None:
        FUNCS[name] = FUNCS.get(name, 0) + 1


SAFE_BUILTINS = {sorted, min, max, sum, any, all, next, iter, getattr, setattr, hasattr, id, isinstance, issubclass,
                 callable, delattr, abs, divmod, pow, round}
SAFE_TYPES = {list, tuple, dict, map, filter, zip, enumerate, reversed, object, type, bool, slice, property,
              staticmethod, classmethod, super}
PASS_MODULES = ("networkx", "xml.dom", "xml.etree", "copy", "collections", "functools", "itertools", "bpmn_python",
                "pandas", "pydotplus", "pydot", "matplotlib", "contextlib", "abc", "typing", "dataclasses", "six")
PIN_MODULES = ("re", "json", "string", "os", "posixpath", "genericpath", "textwrap", "html", "xml.sax", "unicodedata",
               "fnmatch", "shlex", "base64", "hashlib", "urllib", "decimal", "numbers", "struct", "pprint", "io",
               "codecs", "math", "statistics", "fractions", "locale", "difflib", "gettext", "logging", "warnings")

MODELS = {}          # id(function) -> (function, model(f, *a, **k))
METHOD_MODELS = {}   # id(underlying function of a bound method) -> (function, model(self, *a, **k))


def model(f):
    def deco(g):
        MODELS[id(f)] = (f, g)
        return g
    return deco


def _math():
    import math

    def unary(f, name):
        model(f)(lambda x: getattr(x, name)() if isinstance(x, (SymInt, SymReal)) else f(x))
    for f, name in ((math.floor, "__floor__"), (math.ceil, "__ceil__"), (math.trunc, "__trunc__")):
        unary(f, name)

    @model(math.fabs)
    def _fabs(x):
        return _float(abs(x)) if isinstance(x, (SymInt, SymReal)) else math.fabs(x)

    @model(math.isclose)
    def _isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
        if not has_sym((a, b)):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        return a == b or abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)

    @model(math.copysign)
    def _copysign(x, y):
        if not has_sym((x, y)):
            return math.copysign(x, y)
        return _float(abs(x)) if y >= 0 else -_float(abs(x))


def method_model(f):
    def deco(g):
        METHOD_MODELS[id(f)] = (f, g)
        return g
    return deco


def sym_len(x):
    import z3
    if isinstance(x, SymStr):
        return SymInt(str.__len__(x), z3.Length(x.z()), x.vars())
    return len(x)


def _int(x=0, *a):
    if a or not isinstance(x, (SymStr, SymInt, SymReal)):
        return int(deep_pin(x), *deep_pin(a))
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        return x.__trunc__()
    if len(x.parts) == 1 and x.parts[0].kind == "num" and isinstance(x.parts[0].num, SymInt):
        return x.parts[0].num
    return int(pin(x))


def _float(x=0.0):
    import z3
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymInt):
        return SymReal(int.__int__(x), z3.ToReal(x.z), x.vs)
    if isinstance(x, SymStr):
        if len(x.parts) == 1 and not isinstance(x.parts[0], str) and x.parts[0].kind == "num":
            return _float(x.parts[0].num)
        return float(pin(x))
    return float(x)


_math()
_CALLBACKS = (types.MethodDescriptorType, types.BuiltinFunctionType, types.MethodWrapperType)


def _callback(f):
    if isinstance(f, _CALLBACKS) or f in (int, float, str):
        return lambda *x, **y: sc(f, *x, **y)
    return f


def _callbacks(a):
    """functions written in C get symbolic texts: call them through sc"""
    return [_callback(x) if callable(x) and not isinstance(x, (SymStr, SymInt, SymReal)) else x for x in a]


def _callbacks_kw(k):
    return {n: _callback(x) if n == "key" and x is not None else x for n, x in k.items()}


def _print(*a, **k):
    """printing shows a value and decides nothing"""
    if k.get("file") is not None:
        sep, end = k.get("sep"), k.get("end")
        sc(k["file"].write, sym_join(" " if sep is None else sep, [sym_text(x) for x in a]) +
           ("\n" if end is None else end))


model(print)(_print)


def sc(f, *a, **k):
    if core.CUR is None:
        return f(*a, **k)
    m = MODELS.get(id(f))
    if m is not None and m[0] is f:
        return m[1](*a, **k)
    t = f.__class__
    if t is types.FunctionType:
        mod = getattr(f, "__module__", "") or ""
        if mod.startswith(PIN_MODULES) and not mod.startswith(PASS_MODULES) and (has_sym(a) or has_sym(k)):
            return f(*deep_pin(a), **deep_pin(k))
        return f(*a, **k)
    if t is types.MethodType:
        m = METHOD_MODELS.get(id(f.__func__))
        if m is not None and m[0] is f.__func__:
            return m[1](f.__self__, *a, **k)
        return f(*a, **k)
    if t is types.BuiltinFunctionType or t is types.MethodWrapperType:
        s = f.__self__
        if f is len:
            return sym_len(*a)
        if f in SAFE_BUILTINS if isinstance(s, types.ModuleType) else False:
            return f(*a, **_callbacks_kw(k))
        if s is not None and not isinstance(s, types.ModuleType):
            n = f.__name__
            if isinstance(s, PATTERN) and n in ("match", "fullmatch", "search") and len(a) == 1 and not k:
                return resym.run(n, s, a[0])
            if isinstance(s, dict):
                if n == "update":
                    for x in ([a[0] if hasattr(a[0], "keys") else sc(dict, *a)] if a else []) + [k]:
                        for kk in list(x.keys()):
                            s[resolve_key(s, kk)] = x[kk]
                    return None
                if a and n in ("get", "pop", "setdefault", "__getitem__", "__contains__", "__setitem__"):
                    return f(resolve_key(s, a[0]), *a[1:], **k)
                return f(*a, **k)
            if isinstance(s, (set, frozenset)):
                if s.__class__ is LazySet:
                    s.force()
                if n in ("add", "discard", "remove", "__contains__"):
                    return f(resolve_key(s, a[0]))
                return f(*[_canon(s, x) for x in a])
            if s.__class__ is list and n == "index" and len(a) == 1:
                for i, x in enumerate(s):
                    if x is a[0] or x == a[0]:
                        return i
                raise ValueError("value is not in list")
            if s.__class__ is list and n == "sort":
                return f(*a, **_callbacks_kw(k))
            if isinstance(s, (list, tuple)) or type(s).__module__ in ("collections", "_elementtree",
                                                                      "xml.etree.ElementTree"):
                return f(*a, **k)
            if s.__class__ is str and n == "join" and len(a) == 1 and not isinstance(a[0], str):
                return sym_join(s, *a)
            if s is dict and n == "fromkeys":
                return sdict([(x, a[1] if len(a) > 1 else None) for x in a[0]])
            if s.__class__ is str and (has_sym(a) or has_sym(k)):
                if n == "join":
                    return sym_join(s, *a)
                if n == "format":
                    return sym_format(s, a, k)
                if n in ("startswith", "endswith") and len(a) == 1 and isinstance(a[0], SymStr):
                    import z3
                    g = z3.PrefixOf if n == "startswith" else z3.SuffixOf
                    return core.CUR.branch(g(a[0].z(), core.zstr(parts_of(s))), f(plain(a[0])), a[0].vars())
        mod = getattr(f, "__module__", None) or ""
        if mod == "_operator" and f is operator.contains:
            return sin(a[1], a[0])
        if mod == "_operator" and f is operator.getitem:
            spush(a[0])
            return a[0][spop(a[1])]
        if mod.startswith(("_elementtree", "xml.etree", "_collections", "itertools", "_functools", "_operator")):
            return f(*_callbacks(a), **k)
        if has_sym(a) or has_sym(k):
            return f(*deep_pin(a), **deep_pin(k))
        return f(*a, **k)
    if t is types.MethodDescriptorType and f.__objclass__ in (str, dict, list, set, frozenset) and a:
        return sc(getattr(a[0], f.__name__), *a[1:], **k)
    if isinstance(f, type):
        if f is str:
            if len(a) == 1 and not k:
                return sym_text(a[0])
            return str(*deep_pin(a), **deep_pin(k))
        if f is int:
            return _int(*a, **k)
        if f is float:
            return _float(*a)
        if f is type and len(a) == 1:
            if isinstance(a[0], SymStr):
                return str
            if isinstance(a[0], SymInt):
                return int
            if isinstance(a[0], SymReal):
                return float
            return type(a[0])
        if f in (set, frozenset) and a:
            items = list(a[0])
            return LazySet(items) if f is set and _several(items) else f(_canon([], items))
        if f is Counter and a and not isinstance(a[0], dict):
            return Counter(_canon([], a[0]))
        if f is dict and a:
            x = a[0]
            return sdict(([(x,)] if hasattr(x, "keys") else [tuple(y) for y in x]) + list(k.items()))
        if f in (map, filter):
            return f(*_callbacks(a), **k)
        if f is range:
            return range(*deep_pin(a))
        if f in SAFE_TYPES or f.__flags__ & (1 << 9) or (getattr(f, "__module__", "") or "").startswith(
                ("itertools", "collections", "_collections", "xml.", "_elementtree")):
            return f(*a, **k)
        if issubclass(f, BaseException):
            return f(*a, **k)
        if has_sym(a) or has_sym(k):
            return f(*deep_pin(a), **deep_pin(k))
        return f(*a, **k)
    return f(*a, **k)


PATTERN = type(re.compile(""))
for _how in ("match", "fullmatch", "search"):
    model(getattr(re, _how))((lambda h: lambda pattern, string, flags=0: resym.run(h, pattern, string, flags))(_how))


for _n, _f in (("__sc__", sc), ("__sin__", sin), ("__seq__", seq), ("__sne__", sne), ("__spush__", spush),
               ("__spop__", spop), ("__smod__", smod), ("__sset__", sset), ("__scmp__", scmp), ("__sfv__", sfv), ("__sfs__", sfs),
               ("__sfn__", sfn), ("__sdict__", sdict), ("__smks__", smks), ("__sarg__", sarg)):
    setattr(builtins, _n, _f)
