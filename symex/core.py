# coding=utf-8
"""
Symbolic values and the path context of the concolic executor.

A symbolic string is a *real* ``str`` whose concrete content is the value it has under the current
solver model, and which additionally carries the term it was computed from (a concatenation of constants
and atoms).  Every observation the program makes of it (==, truth value, prefix test, hashing into a dict,
...) is answered from the concrete content and recorded as a constraint in the path condition.  Operations
with no model pin the operands (an equality constraint ``var == value`` is added and counted), so that a
recorded path condition always describes a set of inputs which really take that path.
"""
import re
import string as _string
from fractions import Fraction

import z3

CUR = None          # the current SymCtx or None (concrete execution)

_plain = str.__str__


def plain(x):
    return _plain(x) if isinstance(x, str) else x


# ---------------------------------------------------------------------------------------------------------
# variables and atoms

class Var(object):
    __slots__ = ("name", "sort", "z", "group", "domain", "choices", "lo", "hi")

    def __init__(self, name, sort, group=None, domain="text", choices=None, lo=None, hi=None):
        self.name = name
        self.sort = sort
        self.group = group
        self.domain = domain
        self.choices = choices
        self.lo = lo
        self.hi = hi
        if choices is not None or sort == "int":
            self.z = z3.Int(name)
        elif sort == "str":
            self.z = z3.String(name)
        elif sort == "real":
            self.z = z3.Real(name)
        elif sort == "bool":
            self.z = z3.Bool(name)
        else:
            raise ValueError(sort)


class Atom(object):
    """kind: 'var' (free string variable), 'choice', 'num' (decimal text of a number), 'expr', 'der' (lower() or strip()
    of another atom; tests against constants become regular constraints on that atom, everything else pins it)"""
    __slots__ = ("kind", "key", "var", "val", "vars", "zs", "num", "base", "op")

    def __init__(self, kind, key, val, vars_, var=None, zs=None, num=None, base=None, op=None):
        self.base = base
        self.op = op
        self.kind = kind
        self.key = key
        self.val = val
        self.vars = vars_
        self.var = var
        self.zs = zs
        self.num = num

    def z(self):
        if self.kind == "der":
            CUR.pin_atom(self)
            return z3.StringVal(zesc(self.val))
        if self.zs is None:
            if self.kind == "choice":
                ch = self.var.choices
                e = z3.StringVal(zesc(ch[-1]))
                for i in range(len(ch) - 2, -1, -1):
                    e = z3.If(self.var.z == i, z3.StringVal(zesc(ch[i])), e)
                self.zs = e
            elif self.kind == "num":
                n = self.num
                if isinstance(n, SymInt):
                    self.zs = z3.If(n.z < 0, z3.Concat(z3.StringVal("-"), z3.IntToStr(-n.z)), z3.IntToStr(n.z))
                else:
                    f = z3.Function("real_to_text", z3.RealSort(), z3.StringSort())
                    self.zs = f(n.z)
        return self.zs


def zesc(s):
    """python str -> argument of z3.StringVal (z3 interprets \\u{..} escapes)"""
    out = []
    for c in _plain(s):
        o = ord(c)
        if c == "\\" or o < 32 or o > 126:
            out.append("\\u{%x}" % o)
        else:
            out.append(c)
    return "".join(out)


_unesc_re = re.compile(r"\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\x([0-9a-fA-F]{2})")


def zunesc(s):
    return _unesc_re.sub(lambda m: chr(int(m.group(1) or m.group(2) or m.group(3), 16)), s)


def _merge(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            p = _plain(p)
            if p == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] = out[-1] + p
                continue
        out.append(p)
    return tuple(out)


def mk(parts):
    """parts -> str (plain when there is no atom in it)"""
    parts = _merge(parts)
    if not parts:
        return ""
    if len(parts) == 1 and isinstance(parts[0], str):
        return parts[0]
    val = "".join([p if isinstance(p, str) else p.val for p in parts])
    return SymStr(val, parts)


def parts_of(s):
    if isinstance(s, SymStr):
        return s.parts
    s = _plain(s)
    return (s,) if s != "" else ()


def zpart(p):
    return z3.StringVal(zesc(p)) if isinstance(p, str) else p.z()


def zstr(parts):
    zs = [zpart(p) for p in parts]
    if not zs:
        return z3.StringVal("")
    if len(zs) == 1:
        return zs[0]
    return z3.Concat(*zs)


def vars_of_parts(parts):
    out = frozenset()
    for p in parts:
        if not isinstance(p, str):
            out |= p.vars
    return out


_int_re = re.compile(r"^-?(0|[1-9][0-9]*)$")


class SymObject(object):
    """an object whose text is symbolic: str(x) keeps it, pinned() is the object of this one value"""


#: texts (of this one path) of numbers drawn at random that occur in no input
FRESH = []


def new_fresh(number):
    import uuid
    h = "%032x" % number
    FRESH.extend((h, str(uuid.UUID(h)), str(number), "%x" % number))


def _fresh(parts):
    for p in parts:
        if isinstance(p, str):
            if FRESH and len(p) >= 12:
                low = p.lower()
                if any(u in low for u in FRESH):
                    return True
        elif p.kind == "var" and p.var.group == "uuid":
            return True
    return False


def eq_formula(a, b):
    """symbolic equality of two strings: True, False or a z3 formula"""
    pa, pb = list(parts_of(a)), list(parts_of(b))
    if _fresh(pa) != _fresh(pb):
        return False                        # a new uuid is in no text that does not contain it
    for side in (0, -1):
        while pa and pb:
            x, y = pa[side], pb[side]
            xs, ys = isinstance(x, str), isinstance(y, str)
            if xs and ys:
                if x == y:
                    pa.pop(side)
                    pb.pop(side)
                    continue
                m, n = (x, y) if len(x) <= len(y) else (y, x)
                ok = n.startswith(m) if side == 0 else n.endswith(m)
                if not ok:
                    return False
                rest = n[len(m):] if side == 0 else n[:len(n) - len(m)]
                if m is x:
                    pa.pop(side)
                    pb[side] = rest
                else:
                    pb.pop(side)
                    pa[side] = rest
                continue
            if not xs and not ys and x.key == y.key:
                pa.pop(side)
                pb.pop(side)
                continue
            break
    if not pa and not pb:
        return True
    if not pa or not pb:
        rest = pa or pb
        if any(isinstance(p, str) for p in rest) or any((not isinstance(p, str)) and p.kind == "num" for p in rest):
            return False
        fs = []
        for p in rest:
            f = _atom_const(p, "")
            if f is False:
                return False
            if f is not True:
                fs.append(f)
        if not fs:
            return True
        return fs[0] if len(fs) == 1 else z3.And(*fs)
    if len(pa) == 1 and len(pb) == 1:
        x, y = pa[0], pb[0]
        if isinstance(x, str):
            return _atom_const(y, x)
        if isinstance(y, str):
            return _atom_const(x, y)
        if y.kind == "der":
            x, y = y, x
        if x.kind == "der" and x.op in ("strip", "lstrip", "rstrip") and x.base.key == y.key:
            cs = char_class(WS)
            fs = ([z3.InRe(y.z(), z3.Concat(cs, _any()))] if x.op != "rstrip" else []) + \
                ([z3.InRe(y.z(), z3.Concat(_any(), cs))] if x.op != "lstrip" else [])
            return z3.Not(z3.Or(*fs))
        if x.kind == "der" and isinstance(x.op, tuple) and x.op[0] == "replace" and x.base.key == y.key and \
                y.kind != "der" and x.op[1] != x.op[2]:
            return z3.Not(z3.Contains(y.z(), z3.StringVal(zesc(x.op[1]))))
        if x.kind == "var" and y.kind == "var" and x.var.group is not None and x.var.group == y.var.group:
            return False
        if x.kind == "choice" and y.kind == "choice":
            alts = [z3.And(x.var.z == i, y.var.z == j) for i, u in enumerate(x.var.choices)
                    for j, v in enumerate(y.var.choices) if u == v]
            if not alts:
                return False
            return z3.Or(*alts) if len(alts) > 1 else alts[0]
        if x.kind == "num" and y.kind == "num":
            if type(x.num) is type(y.num):
                return x.num.z == y.num.z
    return zstr(pa) == zstr(pb)


def _atom_const(atom, const):
    if atom.kind == "choice":
        hits = [i for i, c in enumerate(atom.var.choices) if c == const]
        if not hits:
            return False
        if len(hits) == len(atom.var.choices):
            return True
        fs = [atom.var.z == i for i in hits]
        return fs[0] if len(fs) == 1 else z3.Or(*fs)
    if atom.kind == "num":
        if isinstance(atom.num, SymInt):
            if not _int_re.match(const):
                return False
            return atom.num.z == int(const)
        return atom.z() == z3.StringVal(zesc(const))
    if atom.kind == "der":
        return der_formula(atom, ("lit", const))
    return atom.z() == z3.StringVal(zesc(const))


# languages of derived atoms: ("lit", s), ("pre", s) = s followed by anything, ("post", s), ("has", s)

_lower_inv = {}


def _lower_preimage(c):
    if not _lower_inv:
        for o in range(0x30000):
            l = chr(o).lower()
            if len(l) == 1 and ord(l) < 128:
                _lower_inv.setdefault(l, []).append(chr(o))
    return _lower_inv.get(c, [])


def der_formula(atom, lang):
    """membership of the derived atom in lang as a formula over its innermost atom; pins when there is none"""
    ops = []
    a = atom
    while a.kind == "der":
        ops.append(a.op)
        a = a.base
    kind, s = lang
    lower = "lower" in ops
    if len(ops) == 1 and isinstance(ops[0], tuple) and kind == "lit" and ops[0][0] == "replace" and \
            len(ops[0][1]) == 1 and len(ops[0][2]) <= 1 and ops[0][1] != ops[0][2]:
        old, new = ops[0][1:]
        if old in s:
            return False
        o = z3.Re(z3.StringVal(zesc(old)))
        rs = [z3.Star(o)] if new == "" else []
        for c in s:
            rs.append(z3.Union(z3.Re(z3.StringVal(zesc(c))), o) if c == new else z3.Re(z3.StringVal(zesc(c))))
            if new == "":
                rs.append(z3.Star(o))
        if not rs:
            return a.z() == z3.StringVal("")
        return z3.InRe(a.z(), rs[0] if len(rs) == 1 else z3.Concat(*rs))
    if any(isinstance(o, tuple) for o in ops):
        CUR.pin_atom(atom)
        return {"lit": atom.val == s, "pre": atom.val.startswith(s), "post": atom.val.endswith(s),
                "has": s in atom.val}[kind]
    strips = [o for o in ops if o != "lower"]
    if not all(ord(c) < 128 for c in s) or (lower and kind != "lit" and "i" in s) or len(strips) > 1:
        CUR.pin_atom(atom)
        return {"lit": atom.val == s, "pre": atom.val.startswith(s), "post": atom.val.endswith(s),
                "has": s in atom.val}[kind]
    if s == "" and kind != "lit":
        return True
    if strips and s != "":
        if (s[0] in WS and strips[0] != "rstrip" and kind in ("lit", "pre")) or \
                (s[-1] in WS and strips[0] != "lstrip" and kind in ("lit", "post")):
            return False
        if kind != "lit" and any(c in WS for c in s):
            CUR.pin_atom(atom)
            return {"pre": atom.val.startswith(s), "post": atom.val.endswith(s), "has": s in atom.val}[kind]
    rs = []
    for c in s:
        pre = _lower_preimage(c) if lower else [c]
        if not pre:
            return False
        rs.append(char_class(pre))
    ws = z3.Star(char_class(WS))
    if strips and strips[0] in ("strip", "lstrip") and kind != "has" and kind != "post":
        rs.insert(0, ws)
    if strips and strips[0] in ("strip", "rstrip") and kind != "has" and kind != "pre":
        rs.append(ws)
    if kind in ("post", "has"):
        rs.insert(0, _any())
    if kind in ("pre", "has"):
        rs.append(_any())
    if not rs:
        return a.z() == z3.StringVal("")
    return z3.InRe(a.z(), rs[0] if len(rs) == 1 else z3.Concat(*rs))


def derive(atom, op):
    val = getattr(atom.val, op[0])(*op[1:]) if isinstance(op, tuple) else getattr(atom.val, op)()
    return mk((Atom("der", ("der", op, atom.key), val, atom.vars, base=atom, op=op),))


def _der(s):
    return s.parts[0] if isinstance(s, SymStr) and len(s.parts) == 1 and not isinstance(s.parts[0], str) and \
        s.parts[0].kind == "der" else None


# ---------------------------------------------------------------------------------------------------------
# symbolic strings

WS = "\t\n\x0b\x0c\r\x1c\x1d\x1e\x1f \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009" \
     "\u200a\u2028\u2029\u202f\u205f\u3000"


def char_class(chars):
    rs = [z3.Re(z3.StringVal(zesc(c))) for c in chars]
    return rs[0] if len(rs) == 1 else z3.Union(*rs)


def _any():
    return z3.Full(z3.ReSort(z3.StringSort()))


def zrange(a, b):
    return z3.Range(z3.StringVal(zesc(a)), z3.StringVal(zesc(b)))


def _non_lower_fixed():
    # strings on which lower() is not known to be the identity: an upper case ASCII letter or non-ASCII
    return z3.Concat(_any(), z3.Union(zrange("A", "Z"), zrange("\x80", "\U0002fffe")), _any())


def _non_upper_fixed():
    return z3.Concat(_any(), z3.Union(zrange("a", "z"), zrange("\x80", "\U0002fffe")), _any())


SYM_HASH = 7919


class SymStr(str):
    __slots__ = ("parts", "_vars")

    def __new__(cls, val, parts):
        self = str.__new__(cls, val)
        self.parts = parts
        self._vars = None
        return self

    # -- helpers
    def vars(self):
        if self._vars is None:
            self._vars = vars_of_parts(self.parts)
        return self._vars

    def z(self):
        return zstr(self.parts)

    # -- identity of value
    def __hash__(self):
        return SYM_HASH

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, proto):
        return (str, (pin(self),))

    def __eq__(self, other):
        if self is other:
            return True
        if not isinstance(other, str):
            return NotImplemented
        f = eq_formula(self, other)
        if f is True or f is False:
            return f
        return CUR.branch(f, _plain(self) == _plain(other), self.vars() | sym_vars(other))

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def _cmp(self, other, op):
        if not isinstance(other, str):
            return NotImplemented
        a, b = _plain(self), _plain(other)
        za, zb = self.z(), zstr(parts_of(other))
        vs = self.vars() | sym_vars(other)
        if op == "<":
            return CUR.branch(za < zb, a < b, vs)
        if op == "<=":
            return CUR.branch(za <= zb, a <= b, vs)
        if op == ">":
            return CUR.branch(zb < za, a > b, vs)
        return CUR.branch(zb <= za, a >= b, vs)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __bool__(self):
        return not (self == "")

    def __str__(self):
        return self

    def __repr__(self):
        return repr(pin(self))

    def __format__(self, spec):
        return format(pin(self), spec)

    def __len__(self):
        # only C code gets here (instrumented code uses sym_len)
        return len(pin(self))

    def __iter__(self):
        return iter(pin(self))

    # -- concatenation
    def __add__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return mk(self.parts + parts_of(other))

    def __radd__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return mk(parts_of(other) + self.parts)

    def __mul__(self, n):
        if isinstance(n, SymInt):
            n = pin(n)
        return mk(self.parts * n)

    __rmul__ = __mul__

    def __mod__(self, args):
        return _plain(pin(self)) % deep_pin(args)

    def __rmod__(self, fmt):
        return sym_mod(fmt, self)

    # -- containment and searching
    def __contains__(self, sub):
        return sym_str_contains(self, sub)

    def startswith(self, prefix, *rest):
        if rest:
            return pin(self).startswith(deep_pin(prefix), *rest)
        if isinstance(prefix, tuple):
            return any(self.startswith(p) for p in prefix)
        first = self.parts[0]
        p = prefix
        if isinstance(first, str) and not isinstance(p, SymStr):
            if first.startswith(p):
                return True
            if not p.startswith(first):
                return False
        if p == "":
            return True
        if _der(self) is not None and not isinstance(p, SymStr):
            return _branch(der_formula(_der(self), ("pre", p)), _plain(self).startswith(p), self.vars())
        return CUR.branch(z3.PrefixOf(zstr(parts_of(p)), self.z()), _plain(self).startswith(_plain(p)),
                          self.vars() | sym_vars(p))

    def endswith(self, suffix, *rest):
        if rest:
            return pin(self).endswith(deep_pin(suffix), *rest)
        if isinstance(suffix, tuple):
            return any(self.endswith(p) for p in suffix)
        last = self.parts[-1]
        p = suffix
        if isinstance(last, str) and not isinstance(p, SymStr):
            if last.endswith(p):
                return True
            if not p.endswith(last):
                return False
        if p == "":
            return True
        if _der(self) is not None and not isinstance(p, SymStr):
            return _branch(der_formula(_der(self), ("post", p)), _plain(self).endswith(p), self.vars())
        return CUR.branch(z3.SuffixOf(zstr(parts_of(p)), self.z()), _plain(self).endswith(_plain(p)),
                          self.vars() | sym_vars(p))

    def _in_re(self, rex, val):
        return CUR.branch(z3.InRe(self.z(), rex), val, self.vars())

    def _strip(self, side, chars):
        if isinstance(chars, SymStr):
            chars = pin(chars)
        cs = WS if chars is None else chars
        if (side == "r" or _edge(self.parts[0], 0, cs)) and (side == "l" or _edge(self.parts[-1], -1, cs)):
            return self
        v = _plain(self)
        d = _der(self)
        if d is not None and chars is None:
            ops = []
            a = d
            while a.kind == "der":
                ops.append(a.op)
                a = a.base
            if any(isinstance(o, tuple) for o in ops):
                p = pin(self)
                return getattr(p, {"b": "strip", "l": "lstrip", "r": "rstrip"}[side])()
            if "strip" in ops:
                return self
            if ops == ["lower"]:                # lower() and strip() commute
                w = mk((a,))._strip(side, None)
                return w.lower()
        if chars is None and len(self.parts) == 1 and self.parts[0].kind == "var":
            return derive(self.parts[0], {"b": "strip", "l": "lstrip", "r": "rstrip"}[side])
        if v == "" and not any(isinstance(p, str) for p in self.parts):
            if self == "":
                return self
        left, right = side != "r", side != "l"
        touched = False
        if left:
            first = self.parts[0]
            if isinstance(first, str):
                t = first[0] in cs
            else:
                t = self._in_re(z3.Concat(char_class(cs), _any()), v != "" and v[0] in cs)
            touched = touched or t
        if right and not touched:
            last = self.parts[-1]
            if isinstance(last, str):
                t = last[-1] in cs
            else:
                t = self._in_re(z3.Concat(_any(), char_class(cs)), v != "" and v[-1] in cs)
            touched = touched or t
        if not touched:
            return self
        # only constants at the ends are affected: strip them structurally when that is possible
        ps = list(self.parts)
        if left and isinstance(ps[0], str):
            s = ps[0].lstrip(cs)
            if s != "":
                ps[0] = s
                return mk(ps)._strip("r", chars) if right and isinstance(mk(ps), SymStr) else mk(ps)
            return _as_sym_strip(mk(ps[1:]), side, chars)
        if right and isinstance(ps[-1], str):
            s = ps[-1].rstrip(cs)
            if s != "":
                ps[-1] = s
                return mk(ps)._strip("l", chars) if left and isinstance(mk(ps), SymStr) else mk(ps)
            return _as_sym_strip(mk(ps[:-1]), side, chars)
        p = pin(self)
        return p.strip(chars) if side == "b" else (p.lstrip(chars) if side == "l" else p.rstrip(chars))

    def strip(self, chars=None):
        return self._strip("b", chars)

    def lstrip(self, chars=None):
        return self._strip("l", chars)

    def rstrip(self, chars=None):
        return self._strip("r", chars)

    def _case(self, name, rex):
        v = _plain(self)
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(getattr(p, name)())
                continue
            if p.kind == "num":
                out.append(p)
                continue
            if p.kind == "choice":
                s = mk((p,))
                w = pin(s)
                out.append(getattr(w, name)())
                continue
            if p.kind == "der":
                if name != "lower" or isinstance(p.op, tuple):
                    out.append(getattr(pin(mk((p,))), name)())
                else:
                    out.extend(derive(p, "lower").parts if p.op != "lower" else (p,))
                continue
            if name == "lower" and p.kind == "var":
                out.extend(derive(p, "lower").parts)
                continue
            pv = p.val
            up = bool(re.search("[A-Z\x80-\U0010ffff]" if rex == "l" else "[a-z\x80-\U0010ffff]", pv))
            hit = CUR.branch(z3.InRe(p.z(), _non_lower_fixed() if rex == "l" else _non_upper_fixed()), up, p.vars)
            if not hit:
                out.append(p)
            else:
                out.append(getattr(pin(mk((p,))), name)())
        return mk(out)

    def lower(self):
        return self._case("lower", "l")

    def casefold(self):
        return self._case("casefold", "l")

    def upper(self):
        return self._case("upper", "u")

    def replace(self, old, new, *count):
        if isinstance(old, SymStr) or count or old == "":
            return pin(self).replace(pin(old), pin(new), *count)
        if len(old) == 1 and not isinstance(new, SymStr):
            out = []
            for p in self.parts:
                if isinstance(p, str):
                    out.append(p.replace(old, new))
                elif p.kind in ("var", "der"):
                    out.extend(derive(p, ("replace", old, new)).parts)
                elif p.kind == "num" and old not in "0123456789.-e+":
                    out.append(p)
                elif sym_str_contains(mk((p,)), old):
                    out.append(pin(mk((p,))).replace(old, new))
                else:
                    out.append(p)
            return mk(out)
        if not sym_str_contains(self, old):
            return self
        if len(old) == 1:
            out = []
            for p in self.parts:
                if isinstance(p, str):
                    chunks = p.split(old)
                    for i, c in enumerate(chunks):
                        if i:
                            out.extend(parts_of(new))
                        out.append(c)
                else:
                    s = mk((p,))
                    if isinstance(s, SymStr) and sym_str_contains(s, old):
                        s = pin(s).replace(old, new)
                    out.extend(parts_of(s))
            return mk(out)
        return pin(self).replace(old, pin(new))

    def split(self, sep=None, maxsplit=-1):
        if sep is not None and not isinstance(sep, SymStr) and len(sep) == 1 and maxsplit == -1:
            chunks = [[]]
            for p in self.parts:
                if isinstance(p, str):
                    for i, c in enumerate(p.split(sep)):
                        if i:
                            chunks.append([])
                        chunks[-1].append(c)
                elif p.kind == "num" and sep not in "0123456789.-e+":
                    chunks[-1].append(p)
                else:
                    s = mk((p,))
                    if sym_str_contains(s, sep):
                        for i, c in enumerate(pin(s).split(sep)):
                            if i:
                                chunks.append([])
                            chunks[-1].append(c)
                    else:
                        chunks[-1].append(p)
            return [mk(c) for c in chunks]
        if sep is None and maxsplit == -1:
            words, cur, open_ = [], [], False
            for p in self.parts:
                if isinstance(p, str):
                    for c in p:
                        if c.isspace():
                            if open_:
                                words.append(cur)
                            cur, open_ = [], False
                        else:
                            cur.append(c)
                            open_ = True
                else:
                    s = mk((p,))
                    ws = bool(re.search(r"\s", p.val))
                    if CUR.branch(z3.InRe(p.z(), z3.Concat(_any(), char_class(WS), _any())), ws, p.vars) \
                            if p.kind != "num" else False:
                        for c in pin(s):
                            if c.isspace():
                                if open_:
                                    words.append(cur)
                                cur, open_ = [], False
                            else:
                                cur.append(c)
                                open_ = True
                    elif s == "":
                        pass
                    else:
                        cur.append(p)
                        open_ = True
            if open_:
                words.append(cur)
            return [mk(w) for w in words]
        if sep is not None and maxsplit == 1:
            if not sym_str_contains(self, sep):
                return [self]
            a, _, b = self.partition(sep)
            return [a, b]
        return pin(self).split(pin(sep), maxsplit)

    def partition(self, sep):
        if not sym_str_contains(self, sep):
            return (self, "", "")
        return self._cut(sep, False) or pin(self).partition(pin(sep))

    def _cut(self, sep, last):
        """(before, sep, after) of the first or last sep in this text, which contains it"""
        if isinstance(sep, SymStr):
            sep = pin(sep)
        ps = list(self.parts)
        order = range(len(ps) - 1, -1, -1) if last else range(len(ps))
        for i in order:
            p = ps[i]
            if isinstance(p, str):
                k = p.rfind(sep) if last else p.find(sep)
                if k >= 0:
                    return mk(ps[:i] + [p[:k]]), sep, mk([p[k + len(sep):]] + ps[i + 1:])
                if len(sep) > 1:
                    break
            elif len(sep) == 1 and not sym_str_contains(mk((p,)), sep):
                continue
            else:
                if p.kind == "der" or (len(ps) > 1 and len(sep) > 1):
                    return None
                s, v = mk((p,)), p.val
                z = s.z()
                zk = z3.LastIndexOf(z, z3.StringVal(zesc(sep))) if last else \
                    z3.IndexOf(z, z3.StringVal(zesc(sep)), z3.IntVal(0))
                k = v.rfind(sep) if last else v.find(sep)
                n = z3.Length(z)
                a = _sub(s, z3.IntVal(0), zk, v[:k])
                b = _sub(s, zk + len(sep), n - zk - len(sep), v[k + len(sep):])
                return mk(ps[:i] + list(parts_of(a))), sep, mk(list(parts_of(b)) + ps[i + 1:])
        return None

    def removeprefix(self, prefix):
        if not self.startswith(prefix):
            return self
        return sym_str_getitem(self, slice(len(pin(prefix)), None, None))

    def removesuffix(self, suffix):
        n = len(pin(suffix))
        if n == 0 or not self.endswith(suffix):
            return self
        last = self.parts[-1]
        if isinstance(last, str) and len(last) >= n:
            return mk(list(self.parts[:-1]) + [last[:-n]])
        return sym_str_getitem(self, slice(0, -n, None))

    def rpartition(self, sep):
        if not sym_str_contains(self, sep):
            return ("", "", self)
        return self._cut(sep, True) or pin(self).rpartition(pin(sep))

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is not None and not sym_str_contains(self, sep):
            return [self]
        if sep is not None and maxsplit == 1:
            a, _, b = self.rpartition(sep)
            return [a, b]
        if maxsplit == -1:
            return self.split(sep)
        return pin(self).rsplit(pin(sep), maxsplit)

    def __getitem__(self, i):
        return sym_str_getitem(self, i)

    def join(self, it):
        return sym_join(self, it)

    def format(self, *a, **k):
        return pin(self).format(*deep_pin(a), **deep_pin(k))

    def find(self, sub, *rest):
        if rest:
            return pin(self).find(pin(sub), *rest)
        e = z3.IndexOf(self.z(), zstr(parts_of(sub)), z3.IntVal(0))
        return SymInt(_plain(self).find(_plain(sub)), e, self.vars() | sym_vars(sub))


# characters the non-empty texts of a domain can begin and end with
EDGES = {"ident": (_string.ascii_letters + "_", _string.ascii_letters + _string.digits + "_-."),
         "token": (_string.ascii_letters + _string.digits + "_",) * 2,
         "uuid": ("0123456789abcdef",) * 2, "hex": ("0123456789abcdef",) * 2}


def _edge(p, i, cs):
    """the end i (0 or -1) of the part p is known not to be one of the characters cs"""
    if isinstance(p, str):
        return p[i] not in cs
    if p.kind == "var":
        e = EDGES.get(p.var.domain) if p.var is not None else None
        return e is not None and not any(c in e[i] for c in cs)
    if p.kind == "num":
        return not any(c in "-0123456789.e" for c in cs)
    if p.kind == "choice":
        return all(c != "" and c[i] not in cs for c in p.var.choices)
    return False


def _sub(s, za, ln, val):
    e = z3.simplify(z3.SubString(s.z(), za, ln))
    return mk((Atom("expr", ("expr", e.get_id()), val, s.vars(), zs=e),))


def _branch(f, val, vs):
    return f if f is True or f is False else CUR.branch(f, val, vs)


def _as_sym_strip(s, side, chars):
    if isinstance(s, SymStr):
        return s._strip(side, chars)
    return s.strip(chars) if side == "b" else (s.lstrip(chars) if side == "l" else s.rstrip(chars))


def _pinned_method(name):
    def m(self, *a, **k):
        return getattr(pin(self), name)(*deep_pin(a), **deep_pin(k))
    m.__name__ = name
    return m


for _n in dir(str):
    if _n.startswith("__"):
        continue
    if _n not in SymStr.__dict__ and _n != "maketrans":
        setattr(SymStr, _n, _pinned_method(_n))


def sym_vars(x):
    if isinstance(x, SymStr):
        return x.vars()
    if isinstance(x, (SymInt, SymReal)):
        return x.vs
    return frozenset()


def sym_str_contains(s, sub):
    if not isinstance(sub, str):
        return _plain(s).__contains__(sub)
    if not isinstance(s, SymStr) and not isinstance(sub, SymStr):
        return _plain(sub) in _plain(s)
    if not isinstance(sub, SymStr):
        if sub == "":
            return True
        if any(isinstance(p, str) and sub in p for p in parts_of(s)):
            return True
        if len(sub) == 1 and all(isinstance(p, str) or p.kind == "num" for p in parts_of(s)):
            if sub not in "0123456789.-":
                return False
        if _der(s) is not None:
            return _branch(der_formula(_der(s), ("has", sub)), sub in _plain(s), s.vars())
    return CUR.branch(z3.Contains(zstr(parts_of(s)), zstr(parts_of(sub))), _plain(sub) in _plain(s),
                      sym_vars(s) | sym_vars(sub))


def sym_str_getitem(s, i):
    if isinstance(i, slice):
        if i.step is not None and i.step != 1:
            return pin(s)[deep_pin(i.start):deep_pin(i.stop):deep_pin(i.step)]
        a, b = i.start, i.stop
        if isinstance(a, (SymInt,)) or isinstance(b, SymInt):
            return pin(s)[pin(a) if a is not None else None:pin(b) if b is not None else None]
        n = z3.Length(s.z())
        if a is None:
            a = 0
        # cheap case: slice inside the constant prefix
        first = s.parts[0]
        if isinstance(first, str) and b is not None and 0 <= a and 0 <= b <= len(first):
            return first[a:b]
        if isinstance(first, str) and b is None and 0 <= a <= len(first):
            return mk((first[a:],) + s.parts[1:])
        if a == 0 and b is None:
            return s

        def clamp(k):
            if k is None:
                return n
            if k >= 0:
                return z3.If(n < k, n, z3.IntVal(k))
            return z3.If(n + k < 0, z3.IntVal(0), n + k)

        za, zb = clamp(a), clamp(b)
        ln = z3.If(zb > za, zb - za, z3.IntVal(0))
        e = z3.SubString(s.z(), za, ln)
        return mk((Atom("expr", ("expr", e.get_id()), _plain(s)[a:b], s.vars(), zs=z3.simplify(e)),))
    if isinstance(i, SymInt):
        i = pin(i)
    v = _plain(s)
    n = z3.Length(s.z())
    ok = CUR.branch(n > i if i >= 0 else n >= -i, -len(v) <= i < len(v), s.vars())
    if not ok:
        raise IndexError("string index out of range")
    first = s.parts[0]
    if isinstance(first, str) and 0 <= i < len(first):
        return first[i]
    last = s.parts[-1]
    if isinstance(last, str) and i < 0 and -i <= len(last):
        return last[i]
    e = z3.SubString(s.z(), z3.IntVal(i) if i >= 0 else n + i, z3.IntVal(1))
    return mk((Atom("expr", ("expr", e.get_id()), v[i], s.vars(), zs=z3.simplify(e)),))


def sym_join(sep, it):
    items = list(it)
    if not items:
        return ""
    out = []
    for k, x in enumerate(items):
        if not isinstance(x, str):
            return _plain(sep).join(items)      # raises TypeError
        if k:
            out.extend(parts_of(sep))
        out.extend(parts_of(x))
    return mk(out)


def sym_text(x):
    """str(x) keeping symbolic content"""
    if isinstance(x, str):
        return x
    if isinstance(x, (SymInt, SymReal)):
        return x.__str__()
    return str(x)


def sym_mod(fmt, args):
    if isinstance(fmt, SymStr) or not isinstance(fmt, str):
        return fmt % args
    if not has_sym(args):
        return _plain(fmt) % args
    tup = args if isinstance(args, tuple) else (args,)
    pieces = re.split(r"(%[sd%])", _plain(fmt))
    if any("%" in p for i, p in enumerate(pieces) if i % 2 == 0) or isinstance(args, dict):
        return _plain(fmt) % deep_pin(args)
    out, k = [], 0
    for i, p in enumerate(pieces):
        if i % 2 == 0:
            out.append(p)
        elif p == "%%":
            out.append("%")
        else:
            if k >= len(tup):
                return _plain(fmt) % deep_pin(args)
            x = tup[k]
            k += 1
            if p == "%d" and not isinstance(x, int):
                return _plain(fmt) % deep_pin(args)
            out.extend(parts_of(sym_text(x)))
    if k != len(tup):
        return _plain(fmt) % deep_pin(args)
    return mk(out)


def sym_format(fmt, a, k):
    if not has_sym(a) and not has_sym(k):
        return fmt.format(*a, **k)
    out, auto = [], 0
    try:
        for lit, field, spec, conv in _string.Formatter().parse(fmt):
            out.append(lit)
            if field is None:
                continue
            if spec or conv not in (None, "s"):
                raise ValueError
            if field == "":
                x = a[auto]
                auto += 1
            elif field.isdigit():
                x = a[int(field)]
            elif field.isidentifier():
                x = k[field]
            else:
                raise ValueError
            out.extend(parts_of(sym_text(x)))
    except (ValueError, KeyError, IndexError):
        return fmt.format(*deep_pin(a), **deep_pin(k))
    return mk(out)


# ---------------------------------------------------------------------------------------------------------
# symbolic numbers

def _zint(x):
    return x.z if isinstance(x, SymInt) else z3.IntVal(int(x))


def _zreal(x):
    if isinstance(x, SymReal):
        return x.z
    if isinstance(x, SymInt):
        return z3.ToReal(x.z)
    return z3.RealVal(str(Fraction(x)))


def _frac(x):
    if isinstance(x, SymReal):
        return x.frac
    return Fraction(x)


class SymInt(int):
    def __new__(cls, val, z, vs):
        self = int.__new__(cls, val)
        self.z = z
        self.vs = vs
        return self

    def _v(self):
        return int.__int__(self)

    def __hash__(self):
        return int.__hash__(int(pin(self)))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __str__(self):
        return mk((Atom("num", ("num", self.z.get_id()), int.__repr__(self), self.vs, num=self),))

    def __repr__(self):
        return repr(pin(self))

    def __format__(self, spec):
        return format(pin(self), spec)

    def __bool__(self):
        return CUR.branch(self.z != 0, int.__bool__(self), self.vs)

    def __neg__(self):
        return SymInt(-self._v(), -self.z, self.vs)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __index__(self):
        return int(pin(self))


class SymReal(float):
    def __new__(cls, frac, z, vs):
        frac = Fraction(frac)
        self = float.__new__(cls, float(frac))
        self.frac = frac
        self.z = z
        self.vs = vs
        return self

    def __hash__(self):
        return hash(pin(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __str__(self):
        return mk((Atom("num", ("num", self.z.get_id()), float.__repr__(self), self.vs, num=self),))

    def __repr__(self):
        return repr(pin(self))

    def __bool__(self):
        return CUR.branch(self.z != 0, self.frac != 0, self.vs)

    def __neg__(self):
        return SymReal(-self.frac, -self.z, self.vs)

    def __abs__(self):
        return self if self >= 0 else -self


def _is_num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool) or isinstance(x, bool)


def _arith(op):
    def f(a, b):
        if not _is_num(a) or not _is_num(b):
            return NotImplemented
        vs = sym_vars(a) | sym_vars(b)
        if isinstance(a, float) or isinstance(b, float) or op == "/":
            fa, fb = _frac(a), _frac(b)
            za, zb = _zreal(a), _zreal(b)
            if op == "+":
                return SymReal(fa + fb, za + zb, vs)
            if op == "-":
                return SymReal(fa - fb, za - zb, vs)
            if op == "*":
                return SymReal(fa * fb, za * zb, vs)
            if op == "/":
                if CUR.branch(zb == 0, fb == 0, sym_vars(b)) if sym_vars(b) else fb == 0:
                    raise ZeroDivisionError("float division by zero")
                return SymReal(fa / fb, za / zb, vs)
            if sym_vars(b):
                fb = _frac(pin(b))
                zb = z3.RealVal(str(fb))
            if fb == 0:
                raise ZeroDivisionError("float floor division by zero")
            q, zq = (fa / fb).__floor__(), z3.ToReal(z3.ToInt(za / zb))
            return SymReal(Fraction(q), zq, vs) if op == "//" else SymReal(fa - fb * q, za - zb * zq, vs)
        va, vb = int.__int__(a), int.__int__(b)
        za, zb = _zint(a), _zint(b)
        if op == "+":
            return SymInt(va + vb, za + zb, vs)
        if op == "-":
            return SymInt(va - vb, za - zb, vs)
        if op == "*":
            return SymInt(va * vb, za * zb, vs)
        if sym_vars(b):
            b = pin(b)
            vb = int(b)
            zb = z3.IntVal(vb)
        if vb == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if vb < 0:
            pa = int(pin(a))
            return pa // vb if op == "//" else pa % vb
        if op == "//":
            return SymInt(va // vb, za / zb, vs)
        return SymInt(va % vb, za % zb, vs)
    return f


def _ncmp(op):
    def f(a, b):
        if not isinstance(b, (int, float)) or not isinstance(a, (int, float)):
            return NotImplemented
        vs = sym_vars(a) | sym_vars(b)
        if isinstance(a, float) or isinstance(b, float):
            x, y, zx, zy = _frac(a), _frac(b), _zreal(a), _zreal(b)
        else:
            x, y, zx, zy = int.__int__(a), int.__int__(b), _zint(a), _zint(b)
        if op == "==":
            return CUR.branch(zx == zy, x == y, vs)
        if op == "!=":
            return not CUR.branch(zx == zy, x == y, vs)
        if op == "<":
            return CUR.branch(zx < zy, x < y, vs)
        if op == "<=":
            return CUR.branch(zx <= zy, x <= y, vs)
        if op == ">":
            return CUR.branch(zx > zy, x > y, vs)
        return CUR.branch(zx >= zy, x >= y, vs)
    return f


for _cls in (SymInt, SymReal):
    for _op, _nm in (("+", "add"), ("-", "sub"), ("*", "mul"), ("/", "truediv"), ("//", "floordiv"), ("%", "mod")):
        _f = _arith(_op)
        setattr(_cls, "__%s__" % _nm, _f)
        setattr(_cls, "__r%s__" % _nm, (lambda g: lambda a, b: g(b, a))(_f))
    for _op, _nm in (("==", "eq"), ("!=", "ne"), ("<", "lt"), ("<=", "le"), (">", "gt"), (">=", "ge")):
        setattr(_cls, "__%s__" % _nm, _ncmp(_op))


def _pow(a, n, *mod):
    if not mod and n.__class__ is int and 0 <= n <= 4:
        r = 1
        for _ in range(n):
            r = a * r
        return r if n else type(pin(a))(1)
    return pow(pin(a), pin(n), *mod)


def _real_to_int(name):
    """floor, ceil, trunc and round (half to even) of a real"""
    def zfun(z):
        if name == "__floor__":
            return z3.ToInt(z)
        if name == "__ceil__":
            return -z3.ToInt(-z)
        if name == "__trunc__":
            return z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))
        k = z3.ToInt(z + z3.RealVal("1/2"))
        return z3.If(z3.And(z3.ToReal(k) == z + z3.RealVal("1/2"), k % 2 == 1), k - 1, k)

    def m(self, digits=None):
        if digits is None:
            return SymInt(getattr(self.frac, name)(), zfun(self.z), self.vs)
        f = Fraction(10) ** pin(digits)
        return SymReal(round(self.frac * f) / f, z3.ToReal(zfun(self.z * z3.RealVal(str(f)))) / z3.RealVal(str(f)), self.vs)
    return m


for _n in ("__floor__", "__ceil__", "__trunc__", "__round__"):
    setattr(SymReal, _n, _real_to_int(_n))
    setattr(SymInt, _n, lambda self, digits=None: self if digits is None or digits >= 0 else round(pin(self), digits))
SymReal.is_integer = lambda self: CUR.branch(z3.IsInt(self.z), self.frac.denominator == 1, self.vs)
SymInt.is_integer = lambda self: True


def _num_pinned(name):
    def m(self, *a):
        return getattr(pin(self), name)(*[pin(x) for x in a])
    return m


for _cls, _base in ((SymInt, int), (SymReal, float)):
    _cls.__pow__ = _pow
    _cls.__divmod__ = lambda a, b: (a // b, a % b)
    _cls.__rdivmod__ = lambda a, b: (b // a, b % a)
    for _n in ("__rpow__", "__and__", "__rand__", "__or__",
               "__ror__", "__xor__", "__rxor__", "__lshift__", "__rlshift__", "__rshift__", "__rrshift__",
               "__invert__", "bit_length", "is_integer", "as_integer_ratio", "hex", "conjugate"):
        if hasattr(_base, _n) and _n not in _cls.__dict__:
            setattr(_cls, _n, _num_pinned(_n))


# ---------------------------------------------------------------------------------------------------------
# pinning

def pin(x):
    """the plain value of x; the path condition is narrowed to x having it"""
    if isinstance(x, SymStr):
        for p in x.parts:
            if not isinstance(p, str):
                CUR.pin_atom(p)
        return _plain(x)
    if isinstance(x, SymInt):
        CUR.pin_formula(x.z == int.__int__(x), x.vs, "int")
        return int.__int__(x)
    if isinstance(x, SymReal):
        CUR.pin_formula(x.z == _zreal(float.__float__(x)) if Fraction(float.__float__(x)) == x.frac else
                        x.z == z3.RealVal(str(x.frac)), x.vs, "real")
        return float.__float__(x)
    return x


def has_sym(x, depth=3):
    if isinstance(x, (SymStr, SymInt, SymReal, SymObject)):
        return True
    if depth and type(x) in (list, tuple, set, frozenset):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and type(x) is dict:
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False


def deep_pin(x, depth=3):
    if isinstance(x, (SymStr, SymInt, SymReal)):
        return pin(x)
    if isinstance(x, SymObject):
        return x.pinned()
    if depth and has_sym(x, depth):
        if type(x) in (list, tuple, set, frozenset):
            return type(x)(deep_pin(y, depth - 1) for y in x)
        if type(x) is dict:
            return {deep_pin(k, depth - 1): deep_pin(v, depth - 1) for k, v in x.items()}
    return x
